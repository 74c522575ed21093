From 2041821811c8e248ec2d506206e361e7b300f434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:30 +0000
Subject: [PATCH 01/59] fix: repetitions and alternatives in regular
 expressions no longer leak into neighbouring parts

The '*' and '+' operators looped back to a state shared with the preceding
repetition or the other alternatives, and a top-level '|' restarted from state 0
of the automaton, so a*b* matched 'ba', x|y* matched 'yx' and one token's
expression could continue with another's.
---
 TameParse/Dfa/ndfa_regex.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/TameParse/Dfa/ndfa_regex.cpp b/TameParse/Dfa/ndfa_regex.cpp
index 7291232..2775e68 100644
--- a/TameParse/Dfa/ndfa_regex.cpp
+++ b/TameParse/Dfa/ndfa_regex.cpp
@@ -178,6 +178,10 @@ int ndfa_regex::add_regex(builder& cons, const symbol_string& regex) {
     // Create an epsilon transform to an initial state for this regex
     cons >> epsilon();
     
+    // Alternatives at the top level start from this state too
+    cons.push();
+    cons >> epsilon();
+    
     // Compile until we reach the end of the regex
     symbol_string::const_iterator pos = regex.begin();
     symbol_string::const_iterator end = regex.end();
@@ -194,6 +198,7 @@ int ndfa_regex::add_regex(builder& cons, const symbol_string& regex) {
     
     // Compile the end of the expression
     compile(end, end, cons);
+    cons.pop();
     
     // Return the final state
     return ((state)cons).identifier();
@@ -236,6 +241,9 @@ void ndfa_regex::compile(symbol_string::const_iterator& pos, const symbol_string
         case '(':           // Group start
             // Start a new bracketed section by pushing the current state
             cons.push();
+            
+            // A repetition in the first alternative must only be able to return to its own start
+            cons >> epsilon();
             break;
             
         case ')':           // Group end
@@ -246,6 +254,9 @@ void ndfa_regex::compile(symbol_string::const_iterator& pos, const symbol_string
         case '|':           // Or
             // Or with the most recent state
             cons.begin_or();
+            
+            // A repetition in this alternative must not return to the state shared with the other alternatives
+            cons >> epsilon();
             break;
             
         case '*':           // 0 or more of previous
@@ -262,8 +273,10 @@ void ndfa_regex::compile(symbol_string::const_iterator& pos, const symbol_string
             cons.goto_state(current);
             cons >> previous >> epsilon();
             
-            // Final state is the current state (and preserve the 'previous' state)
-            cons.goto_state(current, previous);
+            // Continue from a new state that can't go back into the repetition (and preserve the 'previous' state)
+            cons.goto_state(current);
+            cons >> epsilon();
+            cons.goto_state(cons.current_state(), previous);
             break;
         }
 
@@ -277,8 +290,10 @@ void ndfa_regex::compile(symbol_string::const_iterator& pos, const symbol_string
             cons.goto_state(current);
             cons >> previous >> epsilon();
             
-            // Final state is the current state (and preserve the 'previous' state)
-            cons.goto_state(current, previous);
+            // Continue from a new state that can't go back into the repetition (and preserve the 'previous' state)
+            cons.goto_state(current);
+            cons >> epsilon();
+            cons.goto_state(cons.current_state(), previous);
             break;
         }
             
-- 
2.43.0


From 3ce935290bf1d54c9f88fb565eb1a217c446c025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:59 +0000
Subject: [PATCH 02/59] fix: symbol ranges spanning several high surrogates
 match exactly the pairs in the range

---
 TameParse/Dfa/ndfa.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TameParse/Dfa/ndfa.cpp b/TameParse/Dfa/ndfa.cpp
index 851c1f7..bad521b 100644
--- a/TameParse/Dfa/ndfa.cpp
+++ b/TameParse/Dfa/ndfa.cpp
@@ -241,14 +241,14 @@ static void add_surrogate_transition(const range<int>& surrogateRange, int curre
         nfa->add_transition(currentState, range<int>(surrogateLower.first, surrogateLower.first+1), tmpState1);
 
         // Transit to the final state for all the 'lower' symbols
-        nfa->add_transition(tmpState1, range<int>(surrogateLower.second, 0xdc00), targetState);
+        nfa->add_transition(tmpState1, range<int>(surrogateLower.second, 0xe000), targetState);
 
         // ... do the same for the 'upper' set of symbols
         int tmpState2 = nfa->add_state();
         nfa->add_transition(currentState, range<int>(surrogateHigher.first, surrogateHigher.first+1), tmpState2);
 
         // Transit to the final state for all the 'lower' symbols
-        nfa->add_transition(tmpState2, range<int>(0xd800, surrogateHigher.second+1), targetState);
+        nfa->add_transition(tmpState2, range<int>(0xdc00, surrogateHigher.second+1), targetState);
 
         // If there's a middle range, then add transitions for that as well
         if (surrogateHigher.first-1 > surrogateLower.first) {
-- 
2.43.0


From 6c993e8e304fb3de898d900526deb5186af79c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:59 +0000
Subject: [PATCH 03/59] fix: case mapping of a range that starts inside a case
 map entry doesn't run past that entry

---
 TameParse/Util/unicode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TameParse/Util/unicode.cpp b/TameParse/Util/unicode.cpp
index c834673..de4c001 100644
--- a/TameParse/Util/unicode.cpp
+++ b/TameParse/Util/unicode.cpp
@@ -92,7 +92,7 @@ static symbol_set convert_range(const symbol_range& range, const map_entry* map,
             int initialChar = curItem->map_to + (lowerChar - curItem->lower);
 
             // The number of characters to map
-            int numChars = curItem->upper - curItem->lower;
+            int numChars = curItem->upper - lowerChar;
             if (numChars > upperChar - lowerChar) {
                 numChars = upperChar - lowerChar;
             }
-- 
2.43.0


From a28d00473b5a3799d0001cd750e63ec1bfb9de92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:08 +0000
Subject: [PATCH 04/59] fix: quoted brackets in a regular expression don't
 count as brackets when it is checked

---
 TameParse/Dfa/ndfa_regex.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/TameParse/Dfa/ndfa_regex.cpp b/TameParse/Dfa/ndfa_regex.cpp
index 2775e68..76add81 100644
--- a/TameParse/Dfa/ndfa_regex.cpp
+++ b/TameParse/Dfa/ndfa_regex.cpp
@@ -559,6 +559,12 @@ void ndfa_regex::check(position_tracker& exprPos, symbol_string::const_iterator&
 
             do {
                 switch (*bracketPos) {
+                    case '\\':
+                        // The next character is quoted (but quoting does nothing inside a {} expression)
+                        if (brackets.empty() || brackets.top() != '}') {
+                            ++bracketPos;
+                        }
+                        break;
                     case '{':
                         if (brackets.empty() || brackets.top() == ')') {
                             brackets.push('}');
@@ -584,7 +590,7 @@ void ndfa_regex::check(position_tracker& exprPos, symbol_string::const_iterator&
                         break;
                 }
 
-                if (!brackets.empty()) {
+                if (!brackets.empty() && bracketPos != end) {
                     ++bracketPos;
                 }
             } while (bracketPos != end && !brackets.empty());
-- 
2.43.0


From b9e5bfa357770c43b31d79b591a0a142a7e637a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:08 +0000
Subject: [PATCH 05/59] fix: a reference to a literal lexer symbol in a regular
 expression is valid

---
 TameParse/Dfa/ndfa_regex.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/TameParse/Dfa/ndfa_regex.cpp b/TameParse/Dfa/ndfa_regex.cpp
index 76add81..01775d8 100644
--- a/TameParse/Dfa/ndfa_regex.cpp
+++ b/TameParse/Dfa/ndfa_regex.cpp
@@ -922,6 +922,11 @@ bool ndfa_regex::check_expression(const symbol_string& expression) {
         return true;
     }
 
+    // Search the literal expression map
+    if (m_LiteralExpressionMap.find(expression) != m_LiteralExpressionMap.end()) {
+        return true;
+    }
+
     // Check if this is a valid unicode expression
     if (!unicode_for_expression(expression).empty()) {
         return true;
-- 
2.43.0


From 8c8d6e718b0537c1e222ebceadc696c24d2a0b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:34 +0000
Subject: [PATCH 06/59] fix: splitting overlapping symbol sets no longer runs
 past the end of the range being added

The gap in front of the next known range was filled up to that range, even when
the range being added ended first: characters outside the set were included and
the loop never terminated (for example for the sets [ae] and [abg]).
---
 TameParse/Dfa/remapped_symbol_map.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TameParse/Dfa/remapped_symbol_map.cpp b/TameParse/Dfa/remapped_symbol_map.cpp
index 7b97f3b..9f746f2 100644
--- a/TameParse/Dfa/remapped_symbol_map.cpp
+++ b/TameParse/Dfa/remapped_symbol_map.cpp
@@ -130,6 +130,7 @@ static void add_set(sets_for_range& sets, const symbol_set& symbols, int identif
             // If there's a gap between the remaining set and the current position, then fill it in
             if (firstGreaterThan->first.lower() > remaining.lower()) {
                 int newUpper = firstGreaterThan->first.lower();
+                if (newUpper > remaining.upper()) newUpper = remaining.upper();
                 
                 // Insert a value to fill the gap
                 firstGreaterThan = sets.insert(firstGreaterThan, sets_for_range::value_type(symbol_range(remaining.lower(), newUpper), justUs));
-- 
2.43.0


From f5a365b49c2f62f68e827fad821dcf411244ead4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:26 +0000
Subject: [PATCH 07/59] fix: symbol tables give the right symbol at
 256-character boundaries and beyond the first page

A range ending on a page boundary left an empty entry for the following page
that hid a range covering it, and such an entry (or a range beyond the table)
couldn't be flattened; lookups in flattened tables compared whole characters
with per-page bounds.
---
 TameParse/Dfa/hard_coded_symbol_table.h | 4 ++--
 TameParse/Dfa/symbol_table.h            | 8 ++++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/TameParse/Dfa/hard_coded_symbol_table.h b/TameParse/Dfa/hard_coded_symbol_table.h
index bc9e724..f34d6ea 100644
--- a/TameParse/Dfa/hard_coded_symbol_table.h
+++ b/TameParse/Dfa/hard_coded_symbol_table.h
@@ -70,10 +70,10 @@ namespace dfa {
         int highest = lowHigh>>8;
         
         // Return the default value if the symbol is out of range
-        if ((int) symbol < lowest || (int) symbol >= highest) return table[offset + 0];
+        int pos         = ((unsigned int) symbol&0xff);
+        if (pos < lowest || pos >= highest) return table[offset + 0];
         
         // Look up the symbol set
-        int pos         = ((unsigned int) symbol&0xff);
         int symbolSet   = table[offset + 2 + (pos - lowest)];
         
         // Use the default symbol if the offset is -1
diff --git a/TameParse/Dfa/symbol_table.h b/TameParse/Dfa/symbol_table.h
index ee84c40..11c9a33 100644
--- a/TameParse/Dfa/symbol_table.h
+++ b/TameParse/Dfa/symbol_table.h
@@ -116,6 +116,8 @@ namespace dfa {
                 return;
             }
             
+            // The last entry that contains part of this range (the upper bound is exclusive)
+            endIndex = (range.upper() - base - 1) >> shift;
             if (endIndex > c_MaxIndex-1) endIndex = c_MaxIndex-1;
             
             // Create the symbol set if needed
@@ -196,6 +198,9 @@ namespace dfa {
                 totalSize += tableSizes[subtableId];
             }
 
+            // The table is empty if only the default symbol is used
+            if (lowestUsed > highestUsed) lowestUsed = highestUsed;
+
             // Allocate space for this table
             size = 2 + (highestUsed - lowestUsed) + totalSize;
             int*    newTable    = new int[size];
@@ -337,6 +342,9 @@ namespace dfa {
                 if (symbolId >= highestUsed)  highestUsed = symbolId+1;
             }
 
+            // The table is empty if only the default symbol is used
+            if (lowestUsed > highestUsed) lowestUsed = highestUsed;
+
             // Allocate space for this table
             size = 2 + (highestUsed - lowestUsed);
             int*    newTable    = new int[size];
-- 
2.43.0


From 5498601bc632e5b7ddb9f7de48bc22f460f72fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:17 +0000
Subject: [PATCH 08/59] fix: compacting a DFA no longer merges an accepting
 state with non-accepting ones or misnumbers states

---
 TameParse/Dfa/ndfa_transformations.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/TameParse/Dfa/ndfa_transformations.cpp b/TameParse/Dfa/ndfa_transformations.cpp
index a229064..d2b326a 100644
--- a/TameParse/Dfa/ndfa_transformations.cpp
+++ b/TameParse/Dfa/ndfa_transformations.cpp
@@ -323,7 +323,7 @@ ndfa* ndfa::to_compact_dfa(const vector<int>& initialState, bool firstAction) co
             
             if (existingState == stateForActions.end()) {
                 // Create a new state
-                targetState = (int) newStates.size()-1;
+                targetState = (int) newStates.size();
                 newStates.push_back(state_set());
             } else {
                 // Add to the existing state
@@ -395,7 +395,7 @@ ndfa* ndfa::to_compact_dfa(const vector<int>& initialState, bool firstAction) co
                 if (splitStateId == -1) {
                     // Assign a new state
                     changed         = true;
-                    splitStateId    = (int) newStates.size()-1;
+                    splitStateId    = (int) newStates.size();
                     newStates.push_back(state_set());
                 }
                 
@@ -415,6 +415,14 @@ ndfa* ndfa::to_compact_dfa(const vector<int>& initialState, bool firstAction) co
     
     // Build the final state machine from the result
 
+    // Empty states won't appear in the result, so work out the final state numbers
+    vector<int> finalStateId;
+    int         numFinalStates = 0;
+    for (int newStateId = 0; newStateId < (int) newStates.size(); ++newStateId) {
+        finalStateId.push_back(numFinalStates);
+        if (!newStates[newStateId].empty()) ++numFinalStates;
+    }
+
     // Build the transitions and accepting actions
     state_list*                 states      = new state_list();
     symbol_map*                 symbolMap   = new symbol_map(*m_Symbols);
@@ -424,7 +432,7 @@ ndfa* ndfa::to_compact_dfa(const vector<int>& initialState, bool firstAction) co
         // Ignore empty states
         if (newStates[newStateId].empty()) continue;
         
-        state* newState = new state(newStateId);
+        state* newState = new state(finalStateId[newStateId]);
         states->push_back(newState);
         
         // Add the transitions for this state: we only need a single template state as the mapped transitions for each symbol
@@ -434,7 +442,7 @@ ndfa* ndfa::to_compact_dfa(const vector<int>& initialState, bool firstAction) co
         
         for (state::iterator originalTransit = templateState.begin(); originalTransit != templateState.end(); ++originalTransit) {
             int symbolSetId = originalTransit->symbol_set();
-            int targetState = oldToNew[originalTransit->new_state()];
+            int targetState = finalStateId[oldToNew[originalTransit->new_state()]];
             
             newState->add(transition(symbolSetId, targetState));
         }
@@ -442,7 +450,7 @@ ndfa* ndfa::to_compact_dfa(const vector<int>& initialState, bool firstAction) co
         // Copy the accept actions from the template state
         // TODO: if firstAction is set, then only copy the 'most important' action
         const accept_action_list&   actions         = actions_for_state(templateStateId);
-        accept_action_list&         targetActions   = (*accept)[newStateId];
+        accept_action_list&         targetActions   = (*accept)[finalStateId[newStateId]];
         for (accept_action_list::const_iterator act = actions.begin(); act != actions.end(); ++act) {
             targetActions.push_back((*act)->clone());
         }
-- 
2.43.0


From c9cf63ddfd744e96cdce8ce5f750026973fff4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:56 +0000
Subject: [PATCH 09/59] fix: UTF-8 reader decodes multi-byte sequences from
 their own bytes

---
 TameParse/Util/utf8reader.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/TameParse/Util/utf8reader.cpp b/TameParse/Util/utf8reader.cpp
index 92c8fa7..bafa0f9 100644
--- a/TameParse/Util/utf8reader.cpp
+++ b/TameParse/Util/utf8reader.cpp
@@ -95,7 +95,7 @@ utf8reader& utf8reader::get(wchar_t& target) {
     }
 
     // Work out how many bytes are in the complete character
-    else if ((target & 0xe0) == 0xc0) {
+    else if ((firstChar & 0xe0) == 0xc0) {
         // Begins 110xxxx (0x80 - 0x7ff)
 
         // Read the remaining characters
@@ -111,7 +111,7 @@ utf8reader& utf8reader::get(wchar_t& target) {
         // Create the result
         target = ((firstChar&0x1f)<<6) | (secondChar&0x3f);
         return *this;
-    } else if ((target & 0xf0) == 0xe0) {
+    } else if ((firstChar & 0xf0) == 0xe0) {
         // Begins 1110xxxx (0x800 - 0xffff)
 
         // Read the remaining characters
@@ -128,7 +128,7 @@ utf8reader& utf8reader::get(wchar_t& target) {
         // Create the result
         target = ((firstChar&0xf)<<12) | ((secondChar&0x3f)<<6) | (thirdChar&0x3f);
         return *this;
-    } else if ((target & 0xf8) == 0xf0) {
+    } else if ((firstChar & 0xf8) == 0xf0) {
         // Begins 11110000 (0x10000 - 0x1fffff)
 
         // Read the remaining characters
@@ -144,10 +144,10 @@ utf8reader& utf8reader::get(wchar_t& target) {
         }
 
         // Construct the UCS-4 character
-        unsigned int ucs4 = ((firstChar&0x7)<<18) | ((secondChar&0x3f)<<12) | ((thirdChar&0x3f)<<6) | (secondChar&0x3f);
+        unsigned int ucs4 = ((firstChar&0x7)<<18) | ((secondChar&0x3f)<<12) | ((thirdChar&0x3f)<<6) | (fourthChar&0x3f);
 
-        // Must be less than 0x110000 to be a valid surrogate pair
-        if (ucs4 >= 0x110000) {
+        // Must be between 0x10000 and 0x10ffff to be a valid surrogate pair
+        if (ucs4 < 0x10000 || ucs4 >= 0x110000) {
             m_BadUTF8   = true;
             target      = 0;
             return *this;
-- 
2.43.0


From f3529c89741e4c9a25cf4a748c1a07839d6c34a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:56 +0000
Subject: [PATCH 10/59] fix: reading from a string no longer drops its last
 character

---
 TameParse/Util/stringreader.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/TameParse/Util/stringreader.h b/TameParse/Util/stringreader.h
index 6480a2f..c214fe0 100644
--- a/TameParse/Util/stringreader.h
+++ b/TameParse/Util/stringreader.h
@@ -68,11 +68,15 @@ namespace util {
         /// \brief Position within the string
         size_t m_Pos;
         
+        /// \brief True if there has been no attempt to read past the end of the string
+        bool m_Good;
+        
     public:
         /// \brief Creates a new stringreader that references the supplied string
         basic_stringreader(const string_type& string)
         : m_SourceString(string)
-        , m_Pos(0) {
+        , m_Pos(0)
+        , m_Good(true) {
         }
         
         /// \brief Returns the next character in the string (or 0 if all of the characters have been read)
@@ -80,6 +84,7 @@ namespace util {
             if (m_Pos >= m_SourceString.size()) {
                 // At the end of the string
                 target = 0;
+                m_Good = false;
             } else {
                 // Return the next character
                 target = m_SourceString[m_Pos++];
@@ -88,9 +93,9 @@ namespace util {
             return *this;
         }
         
-        /// \brief Returns true if there are more characters to read from the string
+        /// \brief As for a standard stream: false once an attempt has been made to read past the end of the string
         inline bool good() const {
-            return m_Pos < m_SourceString.size();
+            return m_Good;
         }
     };
     
-- 
2.43.0


From c6a856c7c9a4d4df8c6385bf1bb588dcdc3f5fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:56 +0000
Subject: [PATCH 11/59] fix: the offset of a position counts every newline
 character

---
 TameParse/Dfa/position.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/TameParse/Dfa/position.h b/TameParse/Dfa/position.h
index 4c3c80b..040524a 100644
--- a/TameParse/Dfa/position.h
+++ b/TameParse/Dfa/position.h
@@ -174,6 +174,7 @@ namespace dfa {
                     break;
                     
                 case 0x0d:              // CR: Carriage Return
+                    m_CurrentPosition.increment();
                     m_CurrentPosition.newline();
                     m_SeenReturn = true;
                     break;
@@ -183,6 +184,7 @@ namespace dfa {
                 case 0x85:              // NEL: NExt Line
                 case 0x2028:            // LS: Line Separator
                 case 0x2029:            // PS: Paragraph Separator
+                    m_CurrentPosition.increment();
                     m_CurrentPosition.newline();
                     m_SeenReturn = false;
                     break;
-- 
2.43.0


From 00a41d678c153fb2ed0c6fb96f779443a964ee83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:56 +0000
Subject: [PATCH 12/59] fix: bytes over 0x7f in a narrow stream are lexed as
 themselves (0xfd ended the input)

---
 TameParse/Dfa/basic_lexer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/TameParse/Dfa/basic_lexer.h b/TameParse/Dfa/basic_lexer.h
index 99abafa..bdc316b 100644
--- a/TameParse/Dfa/basic_lexer.h
+++ b/TameParse/Dfa/basic_lexer.h
@@ -29,6 +29,7 @@
 #define _DFA_BASIC_LEXER_H
 
 #include <iostream>
+#include <string>
 #include <vector>
 
 #include "TameParse/Dfa/symbol_set.h"
@@ -96,7 +97,7 @@ namespace dfa {
                 if (!m_Stream.good()) {
                     result = symbol_set::end_of_input;
                 } else {
-                    result = (int)(unsigned)next;
+                    result = (int)std::char_traits<Char>::to_int_type(next);
                 }
                 return *this;
             }
-- 
2.43.0


From dcaeaa24b90653c74320feb698e9838ae373b6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:03 +0000
Subject: [PATCH 13/59] fix: FIRST sets of recursive, nullable and EBNF items
 are complete; repetitions follow themselves

---
 TameParse/ContextFree/ebnf_items.cpp     | 34 ++++++------------------
 TameParse/ContextFree/grammar.cpp        | 28 +++++++++++++++++--
 TameParse/ContextFree/grammar.h          |  4 +++
 TameParse/ContextFree/standard_items.cpp | 34 ++----------------------
 4 files changed, 40 insertions(+), 60 deletions(-)

diff --git a/TameParse/ContextFree/ebnf_items.cpp b/TameParse/ContextFree/ebnf_items.cpp
index a062241..b98b529 100644
--- a/TameParse/ContextFree/ebnf_items.cpp
+++ b/TameParse/ContextFree/ebnf_items.cpp
@@ -186,13 +186,8 @@ item_set ebnf_optional::first(const grammar& gram) const {
     // Get the rule
     const rule& r = *get_rule();
     
-    // Add items if the rule has a first item
-    if (r.items().size() > 0) {
-        const item_set& ruleItems = gram.first(*(r.items()[0]));
-        result.merge(ruleItems);
-    } else {
-        result.insert(the_empty_item);
-    }
+    // Add everything that can begin the rule
+    result.merge(gram.first_for_rule(r));
     
     return result;
 }
@@ -238,11 +233,8 @@ item_set ebnf_repeating::first(const grammar& gram) const {
     // Get the rule
     const rule& r = *get_rule();
     
-    // Add items if the rule has a first item
-    if (r.items().size() > 0) {
-        const item_set& ruleItems = gram.first(*(r.items()[0]));
-        result.merge(ruleItems);
-    }
+    // Add everything that can begin the rule
+    result.merge(gram.first_for_rule(r));
     
     return result;
 }
@@ -290,13 +282,8 @@ item_set ebnf_repeating_optional::first(const grammar& gram) const {
     // Get the rule
     const rule& r = *get_rule();
     
-    // Add items if the rule has a first item
-    if (r.items().size() > 0) {
-        const item_set& ruleItems = gram.first(*(r.items()[0]));
-        result.merge(ruleItems);
-    } else {
-        result.insert(the_empty_item);
-    }
+    // Add everything that can begin the rule
+    result.merge(gram.first_for_rule(r));
     
     return result;    
 }
@@ -354,13 +341,8 @@ item_set ebnf_alternate::first(const grammar& gram) const {
         // Get the rule
         const rule& r = **nextRule;
         
-        // Add items if the rule has a first item
-        if (r.items().size() > 0) {
-            const item_set& ruleItems = gram.first(*(r.items()[0]));
-            result.merge(ruleItems);
-        } else {
-            result.insert(the_empty_item);
-        }
+        // Add everything that can begin the rule
+        result.merge(gram.first_for_rule(r));
     }
     
     return result;
diff --git a/TameParse/ContextFree/grammar.cpp b/TameParse/ContextFree/grammar.cpp
index f4cbff7..c9e9225 100644
--- a/TameParse/ContextFree/grammar.cpp
+++ b/TameParse/ContextFree/grammar.cpp
@@ -246,9 +246,28 @@ const item_set& grammar::first(const item_container& item) const {
     found = m_CachedFirstSets.insert(pair<item_container, item_set>(item, item_set(this))).first;
     
     // Ask the item for its first set, and update the cache
-    found->second = item->first(*this);
+    bool isOutermost = m_PendingFirstSets.empty();
+    m_PendingFirstSets.push_back(found);
     
-    // Return the newly added item (have to do another lookup as map doesn't have a replace operator)
+    found->second.merge(item->first(*this));
+    
+    // Sets calculated by the recursive calls can be incomplete if they depend on this one, so recalculate until they stop growing
+    if (isOutermost) {
+        bool changed = true;
+        while (changed) {
+            changed = false;
+            for (size_t pending = 0; pending < m_PendingFirstSets.size(); ++pending) {
+                item_set_map::iterator pendingSet = m_PendingFirstSets[pending];
+                if (pendingSet->second.merge(pendingSet->first->first(*this))) {
+                    changed = true;
+                }
+            }
+        }
+        
+        m_PendingFirstSets.clear();
+    }
+    
+    // Return the newly added item
     return found->second;
 }
 
@@ -387,6 +406,11 @@ void grammar::fill_follow(const rule& rule, item_map<item_set>::type& dependenci
         // If this item is an EBNF rule, then we need to process each of its children
         const ebnf* ebnfItem = thisItem->cast_ebnf();
         if (ebnfItem) {
+            // A repetition can be followed by another repetition
+            if (thisItem->type() == item::repeat || thisItem->type() == item::repeat_zero_or_one) {
+                followSet->second.merge(first_for_rule(*ebnfItem->get_rule()));
+            }
+            
             for (ebnf::rule_iterator subRule = ebnfItem->first_rule(); subRule != ebnfItem->last_rule(); ++subRule) {
                 fill_follow(**subRule, dependencies);
             }
diff --git a/TameParse/ContextFree/grammar.h b/TameParse/ContextFree/grammar.h
index 627ad86..bfc3f59 100644
--- a/TameParse/ContextFree/grammar.h
+++ b/TameParse/ContextFree/grammar.h
@@ -29,6 +29,7 @@
 #define _CONTEXTFREE_GRAMMAR_H
 
 #include <map>
+#include <vector>
 #include <string>
 
 #include "TameParse/Util/container.h"
@@ -103,6 +104,9 @@ namespace contextfree {
         /// \brief Cached map of FIRST sets for this grammar
         mutable item_set_map m_CachedFirstSets;
         
+        /// \brief The entries in m_CachedFirstSets that are still being calculated
+        mutable std::vector<item_set_map::iterator> m_PendingFirstSets;
+        
         /// \brief Cached map of FOLLOW sets for this grammar
         mutable item_set_map m_CachedFollowSets;
 
diff --git a/TameParse/ContextFree/standard_items.cpp b/TameParse/ContextFree/standard_items.cpp
index a311b3e..ff8bcbb 100644
--- a/TameParse/ContextFree/standard_items.cpp
+++ b/TameParse/ContextFree/standard_items.cpp
@@ -119,38 +119,8 @@ item_set nonterminal::first(const grammar& gram) const {
     
     // Merge in the first set for each of the initial symbols
     for (rule_list::const_iterator nextRule = rules.begin(); nextRule != rules.end(); ++nextRule) {
-        // Get the items for this rule
-        const item_list& ruleItems = (*nextRule)->items();
-        
-        // Add the empty item if this is an empty rule
-        if (ruleItems.size() == 0) {
-            result.insert(an_empty_item_c);
-            continue;
-        }
-        
-        // Get the first set for the first item in this rule
-        const item_set& ruleFirst = gram.first(ruleItems[0]);
-
-        // Insert into the result
-        result.merge(ruleFirst);
-
-        if (ruleFirst.contains(an_empty_item_c)) {
-            // If there's an empty item, then merge the first sets from the later parts of the rule
-            int pos;
-            for (pos = 1; pos < (int) ruleItems.size(); ++pos) {
-                // Remove the empty item from the current set
-                result.erase(an_empty_item);
-                
-                // Get the first set for the next item
-                const item_set& nextFirst = gram.first(*(ruleItems[pos]));
-                
-                // Merge it with the current set
-                result.merge(nextFirst);
-                
-                // Stop if there's no longer an empty item
-                if (!nextFirst.contains(an_empty_item_c)) break;
-            }
-        }
+        // Merge in everything that can begin this rule (including the empty item if the rule can match nothing)
+        result.merge(gram.first_for_rule(**nextRule));
     }
 
     return result;
-- 
2.43.0


From 548531f82bf8bff6d78549f90cb3024319e7286b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:10 +0000
Subject: [PATCH 14/59] fix: a choice between a reduction and accepting the
 language is reported as a conflict (the parser never ended)

---
 TameParse/Lr/conflict.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/TameParse/Lr/conflict.cpp b/TameParse/Lr/conflict.cpp
index c765e77..cc09e67 100644
--- a/TameParse/Lr/conflict.cpp
+++ b/TameParse/Lr/conflict.cpp
@@ -105,10 +105,14 @@ static void find_conflicts(const lalr_builder& builder, int stateId, conflict_li
         switch ((*nextAction)->type()) {
             case lr_action::act_goto:
             case lr_action::act_ignore:
-            case lr_action::act_accept:
                 ignore = true;
                 break;
                 
+            case lr_action::act_accept:
+                // Accepting the language is a choice like any other, but several guards can be accepted at once
+                ignore = (*nextAction)->item()->type() != item::eoi;
+                break;
+                
             default:
                 ignore = false;
                 break;
-- 
2.43.0


From caaf0fa546e31d9977ac72b8a23f7f21f93c9034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:10 +0000
Subject: [PATCH 15/59] fix: reduce/reduce conflicts are no longer described as
 shift/reduce conflicts when the token can't be shifted

---
 TameParse/Lr/conflict.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/TameParse/Lr/conflict.cpp b/TameParse/Lr/conflict.cpp
index cc09e67..975da44 100644
--- a/TameParse/Lr/conflict.cpp
+++ b/TameParse/Lr/conflict.cpp
@@ -129,9 +129,16 @@ static void find_conflicts(const lalr_builder& builder, int stateId, conflict_li
         if (nextItem->second.size() < 2) continue;
         
         // Ignore items if all but one of the items are 'weak'
-        int numWeak = 0;
+        int     numWeak     = 0;
+        bool    canShift    = false;
         for (lr_action_set::const_iterator nextAction = nextItem->second.begin(); nextAction != nextItem->second.end(); ++nextAction) {
             switch ((*nextAction)->type()) {
+                case lr_action::act_shift:
+                case lr_action::act_shiftstrong:
+                case lr_action::act_divert:
+                    canShift = true;
+                    break;
+                    
                 case lr_action::act_guard:
                 case lr_action::act_weakreduce:
                 case lr_action::act_ignore:
@@ -160,7 +167,8 @@ static void find_conflicts(const lalr_builder& builder, int stateId, conflict_li
         const grammar*    gram = &builder.gram();
         
         // Iterate through the closure to get the items that can be shifted as part of this conflict
-        for (lr1_item_set::const_iterator nextItem = closure.begin(); nextItem != closure.end(); ++nextItem) {
+        // (If the token can't be shifted here then items that begin with it need something to be reduced first)
+        for (lr1_item_set::const_iterator nextItem = closure.begin(); canShift && nextItem != closure.end(); ++nextItem) {
             if (!(*nextItem)->at_end()) {
                 // This item will result in a shift: add it to the list if it can shift our item
                 const item_set& firstItems = gram->first((*nextItem)->rule()->items()[(*nextItem)->offset()]);
-- 
2.43.0


From 725518195d71c195aabf3cd4f0cf1b8b7a0f7ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:58 +0000
Subject: [PATCH 16/59] fix: copying a parser stack links the copy into the
 list of references (destroying the original freed the stack in use)

---
 TameParse/Lr/parser_stack.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/TameParse/Lr/parser_stack.h b/TameParse/Lr/parser_stack.h
index 4e238fb..36ac470 100644
--- a/TameParse/Lr/parser_stack.h
+++ b/TameParse/Lr/parser_stack.h
@@ -264,6 +264,8 @@ namespace lr {
             m_Next = m_Stack->m_RootReference;
             m_Last = NULL;
             m_Stack->m_RootReference = this;
+            
+            if (m_Next) m_Next->m_Last = this;
         }
         
         /// \brief Assignment operator
-- 
2.43.0


From 03c47541fed9051775befccaff23597b2ebe71e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:09 +0000
Subject: [PATCH 17/59] fix: asking a parser state whether a lexeme can be
 reduced compiles, and handles the end of input

---
 TameParse/Lr/parser.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/TameParse/Lr/parser.h b/TameParse/Lr/parser.h
index 1cf83f3..75def0f 100644
--- a/TameParse/Lr/parser.h
+++ b/TameParse/Lr/parser.h
@@ -637,7 +637,10 @@ namespace lr {
             /// be resolved by a LR(1) parser, this will disambiguate the grammar (making it possible to choose
             /// only the action that allows the parser to continue)
             inline bool can_reduce(const lexeme_container& lexeme) {
-                return can_reduce<terminal_fetcher>(lexeme->matched(), 0, std::stack<int>());
+                // The end of input is represented by an empty container, and acts as a nonterminal
+                if (lexeme.item() == NULL) return can_reduce_nonterminal(m_Tables->end_of_input());
+                
+                return can_reduce(lexeme->matched());
             }
 
             /// \brief Returns true if a reduction of the specified terminal symbol will result in it being shifted
-- 
2.43.0


From 8a21aa9d07897d08b33dfb5fec2aa6930e0104a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:57 +0000
Subject: [PATCH 18/59] fix: checking whether a symbol can be reduced stops at
 the end of the actions of the state it has reached

---
 TameParse/Lr/parser_state.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/TameParse/Lr/parser_state.h b/TameParse/Lr/parser_state.h
index 9d972c2..3f8930e 100644
--- a/TameParse/Lr/parser_state.h
+++ b/TameParse/Lr/parser_state.h
@@ -479,7 +479,6 @@ namespace lr {
                     fake_reduce(act, stackPos, pushed, underlyingStack);
                     
                     // Get the new state
-                    int state;
                     if (!pushed.empty()) {
                         // (This will always happen unless there's a bug in the parser tables)
                         state = pushed.top();
-- 
2.43.0


From 41240b86010def07bd9d8187f1d00de78d91ba75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:09 +0000
Subject: [PATCH 19/59] fix: a failed weak reduction stopped a weak symbol from
 acting as its strong equivalent

---
 TameParse/Lr/weak_symbols.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TameParse/Lr/weak_symbols.cpp b/TameParse/Lr/weak_symbols.cpp
index e6b0a85..e9cce11 100644
--- a/TameParse/Lr/weak_symbols.cpp
+++ b/TameParse/Lr/weak_symbols.cpp
@@ -283,7 +283,7 @@ void weak_symbols::rewrite_actions(int state, lr_action_set& actions, const lalr
                 map<int, int>::iterator found = weakSymbols.find(sym);
                 if (found != weakSymbols.end()) {
                     found->second--;
-                    if (found->second < 0) {
+                    if (found->second <= 0) {
                         weakSymbols.erase(found);
                     }
                 }
-- 
2.43.0


From 6980e4ebeb3889cedd9dd6e26ae5cbf3a317c694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:09 +0000
Subject: [PATCH 20/59] fix: the strong equivalent of a weak symbol was picked
 by identifier rather than by lexer priority

---
 TameParse/Lr/weak_symbols.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/TameParse/Lr/weak_symbols.cpp b/TameParse/Lr/weak_symbols.cpp
index e9cce11..458d05f 100644
--- a/TameParse/Lr/weak_symbols.cpp
+++ b/TameParse/Lr/weak_symbols.cpp
@@ -101,8 +101,9 @@ void weak_symbols::add_symbols(ndfa& dfa, const item_set& weak, terminal_diction
         if (accept.empty()) continue;
         
         // Iterate through the accepting action list and determine the 'strongest' symbol
-        int         strongest   = 0x7fffffff;
-        set<int>    usedWeak;
+        int                     strongest       = 0x7fffffff;
+        const accept_action*    strongestAction = NULL;
+        set<int>                usedWeak;
         
         for (accept_actions::const_iterator action = accept.begin(); action != accept.end(); ++action) {
             int sym = (*action)->symbol();
@@ -113,10 +114,11 @@ void weak_symbols::add_symbols(ndfa& dfa, const item_set& weak, terminal_diction
                 continue;
             }
             
-            // Lower symbol IDs are stronger than weaker ones, and the strongest ID is the one that will be accepted
-            // (Same as is defined in the ordering of accept_action)
-            if (sym < strongest) {
-                strongest = sym;
+            // The strongest symbol is the one that the lexer would accept if there were no weak symbols
+            // (This is the ordering defined by accept_action: by default, lower symbol IDs are stronger than higher ones)
+            if (!strongestAction || *strongestAction < **action) {
+                strongest       = sym;
+                strongestAction = *action;
             }
         }
         
-- 
2.43.0


From 08cd124776253d9ec8f43772bc693bc4564a1ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:44 +0000
Subject: [PATCH 21/59] fix: a weak symbol with several strong equivalents was
 not recognised as itself for all but one of them

---
 TameParse/Lr/weak_symbols.cpp | 109 +++++++++++++++++++++-------------
 TameParse/Lr/weak_symbols.h   |   3 +
 2 files changed, 70 insertions(+), 42 deletions(-)

diff --git a/TameParse/Lr/weak_symbols.cpp b/TameParse/Lr/weak_symbols.cpp
index 458d05f..0abc793 100644
--- a/TameParse/Lr/weak_symbols.cpp
+++ b/TameParse/Lr/weak_symbols.cpp
@@ -49,6 +49,7 @@ weak_symbols::weak_symbols(const item_map& map, const grammar* gram)
 weak_symbols::weak_symbols(const weak_symbols& copyFrom)
 : m_StrongToWeak(copyFrom.m_StrongToWeak)
 , m_WeakSymbols(copyFrom.m_WeakSymbols)
+, m_SplitSymbols(copyFrom.m_SplitSymbols)
 , m_Grammar(copyFrom.m_Grammar) {
 }
 
@@ -88,9 +89,12 @@ void weak_symbols::add_symbols(ndfa& dfa, const item_set& weak, terminal_diction
         weakIdentifiers.insert((*weakItem)->symbol());
     }
     
-    // Map of weak to strong symbols
+    // The strong symbol that each weak symbol (or symbol split from one) is equivalent to (-1 if it has no equivalent)
     map<int, int> weakToStrong;
     
+    // The symbols that were split off of the weak symbols, by weak symbol and strong equivalent
+    map<pair<int, int>, int> splitFor;
+    
     // Iterate through all of the DFA states
     typedef ndfa::accept_action_list accept_actions;
     for (int state = 0; state < dfa.count_states(); ++state) {
@@ -100,62 +104,64 @@ void weak_symbols::add_symbols(ndfa& dfa, const item_set& weak, terminal_diction
         // Ignore this state if it has no accepting actions
         if (accept.empty()) continue;
         
-        // Iterate through the accepting action list and determine the 'strongest' symbol
-        int                     strongest       = 0x7fffffff;
-        const accept_action*    strongestAction = NULL;
-        set<int>                usedWeak;
+        // Iterate through the accepting action list and determine the 'strongest' strong symbol and the weak symbol
+        // that will be accepted. The strongest symbol is the one with the highest priority, as defined by the
+        // ordering of accept_action (by default, lower symbol IDs are stronger than higher ones)
+        const accept_action* strongest  = NULL;
+        const accept_action* usedWeak   = NULL;
         
         for (accept_actions::const_iterator action = accept.begin(); action != accept.end(); ++action) {
-            int sym = (*action)->symbol();
-            
-            // Ignore weak symbols
-            if (weakIdentifiers.find(sym) != weakIdentifiers.end()) {
-                usedWeak.insert(sym);
-                continue;
-            }
+            // Choose whether this is a candidate for the weak or the strong symbol
+            bool                    isWeak  = weakIdentifiers.find((*action)->symbol()) != weakIdentifiers.end();
+            const accept_action*&   highest = isWeak ? usedWeak : strongest;
             
-            // The strongest symbol is the one that the lexer would accept if there were no weak symbols
-            // (This is the ordering defined by accept_action: by default, lower symbol IDs are stronger than higher ones)
-            if (!strongestAction || *strongestAction < **action) {
-                strongest       = sym;
-                strongestAction = *action;
+            if (!highest || *highest < **action) {
+                highest = *action;
             }
         }
         
-        // If no 'strongest' symbol was found, then all the symbols here are weak, and we can ignore this state
-        if (strongest == 0x7fffffff)    continue;
+        // Can ignore this state if no weak symbols were found
+        if (!usedWeak) continue;
         
-        // Also can ignore the state if no weak symbols were found
-        if (usedWeak.empty())           continue;
+        // Map the weak symbol we found to the strong symbol
+        int weakSymbol      = usedWeak->symbol();
+        int strongSymbol    = strongest ? strongest->symbol() : -1;
         
-        // Map the weak symbols we found to this identifier
-        for (set<int>::iterator weakSymbol = usedWeak.begin(); weakSymbol != usedWeak.end(); ++weakSymbol) {
-            if (weakToStrong.find(*weakSymbol) == weakToStrong.end()) {
-                // This is the first conflict between the two symbols. Just mark out the mapping.
-                weakToStrong[*weakSymbol] = strongest;
-            } else if (weakToStrong[*weakSymbol] != strongest) {
-                // The weak symbol is used somewhere else with a different meaning
-                // NOTE: this isn't ideal, as if there's an identical conflict somewhere else we generate more and more symbols for each conflicting
-                // state, while we only need one new symbol for each (weak, strong) pair.
-                
-                // Split the weak symbol so that we have two different meanings
-                int splitSymbolId = terminals.split(*weakSymbol);
-                
-                // Change the accepting action for this state so that it accepts the new symbol
-                dfa.clear_accept(state);
-                dfa.accept(state, accept_action(splitSymbolId));
-                
+        map<int, int>::iterator existing = weakToStrong.find(weakSymbol);
+
+        if (existing == weakToStrong.end()) {
+            // This is the first conflict between the two symbols. Just mark out the mapping.
+            weakToStrong[weakSymbol] = strongSymbol;
+        } else if (existing->second != strongSymbol) {
+            // The weak symbol is used somewhere else with a different meaning
+            // Split the weak symbol so that we have two different meanings
+            pair<int, int> splitKey(weakSymbol, strongSymbol);
+            
+            if (splitFor.find(splitKey) == splitFor.end()) {
+                int splitSymbolId       = terminals.split(weakSymbol);
+                splitFor[splitKey]      = splitSymbolId;
+
                 // Map this in the weakToStrong table
-                weakToStrong[splitSymbolId] = strongest;
+                weakToStrong[splitSymbolId] = strongSymbol;
+                
+                // The new symbol is also weak, and can be used anywhere the original symbol can
+                m_SplitSymbols[weakSymbol].insert(splitSymbolId);
+                m_WeakSymbols.insert(item_container(new terminal(splitSymbolId), true));
             }
+            
+            // Change the accepting action for this state so that it accepts the new symbol
+            accept_action splitAction(splitFor[splitKey], usedWeak->eager());
+            
+            dfa.clear_accept(state);
+            dfa.accept(state, splitAction);
         }
     }
     
-    // TODO: if a weak symbol maps to several strong identifiers, it needs to be split into several symbols
-    
     // Fill in the strong map for each weak symbol
     for (map<int, int>::iterator weakStrong = weakToStrong.begin(); weakStrong != weakToStrong.end(); ++weakStrong) {
-        // Use the first strong symbol for this weak symbol
+        // Some symbols have no strong equivalent
+        if (weakStrong->second < 0) continue;
+        
         item_container strongTerm(new terminal(weakStrong->second), true);
         item_container weakTerm(new terminal(weakStrong->first), true);
 
@@ -192,6 +198,25 @@ void weak_symbols::add_symbols(ndfa& dfa, const item_set& weak, terminal_diction
 /// there is a potential clash, then it's likely that the parser will be incorrect as weak reduce actions for
 /// the weak symbol will not be considered in many cases.
 void weak_symbols::rewrite_actions(int state, lr_action_set& actions, const lalr_builder& builder) const {
+    // Symbols that were split off of a weak symbol can be used in the same way as the original
+    if (!m_SplitSymbols.empty()) {
+        lr_action_set splitActions;
+        
+        for (lr_action_set::const_iterator act = actions.begin(); act != actions.end(); ++act) {
+            if ((*act)->item()->type() != item::terminal) continue;
+            
+            map<int, set<int> >::const_iterator splits = m_SplitSymbols.find((*act)->item()->symbol());
+            if (splits == m_SplitSymbols.end()) continue;
+            
+            for (set<int>::const_iterator splitId = splits->second.begin(); splitId != splits->second.end(); ++splitId) {
+                item_container splitTerm(new terminal(*splitId), true);
+                splitActions.insert(lr_action_container(new lr_action(**act, splitTerm), true));
+            }
+        }
+        
+        actions.insert(splitActions.begin(), splitActions.end());
+    }
+    
     // Determine if there are any actions referring to strong symbols in this action set
     bool haveStrong = false;
     
diff --git a/TameParse/Lr/weak_symbols.h b/TameParse/Lr/weak_symbols.h
index a436dd8..c9639b1 100644
--- a/TameParse/Lr/weak_symbols.h
+++ b/TameParse/Lr/weak_symbols.h
@@ -72,6 +72,9 @@ namespace lr {
         /// so it's necessary to maintain a separate list of the weak symbols.
         contextfree::item_set m_WeakSymbols;
 
+        /// \brief Maps the identifiers of weak symbols to those of the symbols that were split off of them
+        std::map<int, std::set<int> > m_SplitSymbols;
+
         /// \brief The grammar that the symbols are from
         const contextfree::grammar* m_Grammar;
         
-- 
2.43.0


From fbaca472d65c61334ab0bccbfc661ae03a069e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:59 +0000
Subject: [PATCH 22/59] fix: a weak symbol whose strong equivalent is ignored
 was a syntax error out of context

---
 TameParse/Compiler/lr_parser_stage.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/TameParse/Compiler/lr_parser_stage.cpp b/TameParse/Compiler/lr_parser_stage.cpp
index ac3aba5..8ffed96 100644
--- a/TameParse/Compiler/lr_parser_stage.cpp
+++ b/TameParse/Compiler/lr_parser_stage.cpp
@@ -327,13 +327,15 @@ void lr_parser_stage::compile() {
     // Add the weak symbols and ignore items actions
     // TODO: it might be good to have a way to supply extra rewriters from other stages instead of just having them
     // hardcoded here. This is good enough for now, though.
-    m_Parser->add_rewriter(action_rewriter_container(m_LexerCompiler->weak_symbols(), false));
     m_Parser->add_rewriter(action_rewriter_container(new conflict_attribute_rewriter(&m_Language->get_rule_item_data())));
     if (!cons().get_option(L"enable-lr1-resolver").empty()) {
         m_Parser->add_rewriter(action_rewriter_container(new lr1_rewriter()));
     }
     m_Parser->add_rewriter(ignoreContainer);
 
+    // The weak symbols must come last: they copy the actions of the strong symbols, which might be ignored symbols
+    m_Parser->add_rewriter(action_rewriter_container(m_LexerCompiler->weak_symbols(), false));
+
     // Build the parser
     m_Parser->complete_parser();
 
-- 
2.43.0


From f1da1011f90f7c95260120947693ab7ad063b20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:48 +0000
Subject: [PATCH 23/59] fix: the LR(1) resolver hid conflicts it had not
 resolved, making parsers that reject valid input

---
 TameParse/Lr/lr1_rewriter.cpp | 143 ++++++++++++++++++++--------------
 1 file changed, 83 insertions(+), 60 deletions(-)

diff --git a/TameParse/Lr/lr1_rewriter.cpp b/TameParse/Lr/lr1_rewriter.cpp
index 1cf4313..275e634 100644
--- a/TameParse/Lr/lr1_rewriter.cpp
+++ b/TameParse/Lr/lr1_rewriter.cpp
@@ -34,6 +34,78 @@ using namespace std;
 using namespace contextfree;
 using namespace lr;
 
+/// \brief Finds the states that can be uncovered by reducing a rule in the specified state and for which the lookahead can follow
+///
+/// These are the states that reach this state after the symbols in the rule, and whose closure contains the rule
+/// with the specified lookahead.
+static set<int> uncovered_states(int stateId, const rule& reduceRule, const item_container& lookahead, const lalr_builder& builder) {
+    const lalr_machine& machine = builder.machine();
+
+    // Move back through the symbols in the rule
+    set<int> states;
+    states.insert(stateId);
+
+    for (size_t offset = reduceRule.items().size(); offset-- > 0;) {
+        set<int> previous;
+
+        for (int fromState = 0; fromState < machine.count_states(); ++fromState) {
+            const lalr_machine::transition_set&             transitions = machine.transitions_for_state(fromState);
+            lalr_machine::transition_set::const_iterator    transit     = transitions.find(reduceRule.items()[offset]);
+
+            if (transit != transitions.end() && states.find(transit->second) != states.end()) {
+                previous.insert(fromState);
+            }
+        }
+
+        states = previous;
+    }
+
+    // Keep the states where the lookahead can follow the nonterminal
+    set<int> result;
+
+    for (set<int>::iterator uncovered = states.begin(); uncovered != states.end(); ++uncovered) {
+        lr1_item_set closure;
+        builder.generate_closure(*machine.state_with_id(*uncovered), closure, &builder.gram());
+
+        for (lr1_item_set::const_iterator lrItem = closure.begin(); lrItem != closure.end(); ++lrItem) {
+            if ((*lrItem)->offset() != 0)                       continue;
+            if (!(*(*lrItem)->rule() == reduceRule))            continue;
+            if (!(*lrItem)->lookahead().contains(lookahead))    continue;
+
+            result.insert(*uncovered);
+            break;
+        }
+    }
+
+    return result;
+}
+
+/// \brief True if there might be a parser stack for which two reductions uncover states in the specified sets
+static bool share_stack(const rule& firstRule, const set<int>& firstStates, const rule& secondRule, const set<int>& secondStates, const lalr_builder& builder) {
+    // The second rule should be the longest
+    if (firstRule.items().size() > secondRule.items().size()) {
+        return share_stack(secondRule, secondStates, firstRule, firstStates, builder);
+    }
+
+    // From the states uncovered by the longer rule, move forward to the position that is uncovered by the shorter rule
+    size_t numSymbols = secondRule.items().size() - firstRule.items().size();
+
+    for (set<int>::const_iterator uncovered = secondStates.begin(); uncovered != secondStates.end(); ++uncovered) {
+        int state = *uncovered;
+
+        for (size_t offset = 0; offset < numSymbols && state >= 0; ++offset) {
+            const lalr_machine::transition_set&             transitions = builder.machine().transitions_for_state(state);
+            lalr_machine::transition_set::const_iterator    transit     = transitions.find(secondRule.items()[offset]);
+
+            state = transit != transitions.end() ? transit->second : -1;
+        }
+
+        if (firstStates.find(state) != firstStates.end()) return true;
+    }
+
+    return false;
+}
+
 /// \brief Modifies the specified set of actions according to the rules in this rewriter
 ///
 /// This call should modify the contents of the supplied action set according to whatever rules it considers 
@@ -72,9 +144,6 @@ void lr1_rewriter::rewrite_actions(int stateId, lr_action_set& actions, const la
     // Nothing more to do if we found no conflicts
     if (!hasConflict) return;
 
-    // Fetch the state
-    const lalr_state& state = *builder.machine().state_with_id(stateId);
-
     // Find items which have reduce/reduce conflicts
     // (LALR parsers can have reduce/reduce conflicts that LR(1) parsers do not)
     for (item_reductions::iterator reduce = reductions.begin(); reduce != reductions.end(); ++reduce) {
@@ -84,66 +153,20 @@ void lr1_rewriter::rewrite_actions(int stateId, lr_action_set& actions, const la
         // Get the terminal that the reduction happens on
         item_container reduceTerminal(reduce->first);
 
-        // Find the target states for this item and nonterminal
-        map<int, set<int> > targetStateForItem;
-
-        for (int lrItemId = 0; lrItemId < state.count_items(); ++lrItemId) {
-            // Fetch this item
-            const lr0_item& lrItem = *state[lrItemId];
-
-            // This item must cause a reduction
-            if (!lrItem.at_end()) continue;
-
-            // It must contain the target terminal in the lookahead
-            const item_set& lookahead = state.lookahead_for(lrItemId);
-            if (!lookahead.contains(reduceTerminal)) continue;
-
-            // Find the lookahead source for this item
-            typedef lalr_builder::lr_item_id lr_item_id;
-            set<lr_item_id> sourceItems;
-            builder.find_lookahead_source(stateId, lrItemId, reduceTerminal, sourceItems);
-
-            // Find the states that this can reduce to (pre-goto)
-            // TODO: if the goto produces another reduction, then we need to check that instead
-            set<int>& targetStates = targetStateForItem[lrItemId];
-            for (set<lr_item_id>::const_iterator reduceTo = sourceItems.begin(); reduceTo != sourceItems.end(); ++reduceTo) {
-                // Check that this reduces one of our conflicted nonterminals
-                const lalr_state&   reduceState = *builder.machine().state_with_id(reduceTo->state_id);
-                const lr0_item&     reduceItem  = *reduceState[reduceTo->item_id];
-
-                // Ignore items at the end (which should only come up via lookahead propagation)
-                if (reduceItem.at_end()) continue;
-
-                // Fetch the item that this item will produce a goto on
-                const item_container& gotoItem = reduceItem.rule()->items()[reduceItem.offset()];
-
-                // It must equal the nonterminal that we're looking for
-                if (gotoItem != lrItem.rule()->nonterminal()) continue;
-
-                // Add this state
-                targetStates.insert(reduceTo->state_id);
-            }
+        // Find the states that each of these reductions uncovers (ie, the states that will have a goto on the nonterminal)
+        vector<set<int> > uncovered;
+        
+        for (item_list::iterator act = reduce->second.begin(); act != reduce->second.end(); ++act) {
+            uncovered.push_back(uncovered_states(stateId, *(*act)->rule(), reduceTerminal, builder));
         }
 
-        // We can resolve this conflict if each of the items being reduced ends up in a different set of states
-        set<int>    usedStates;
-        bool        canResolve = true;
-
-        for (map<int, set<int> >::iterator itemStates = targetStateForItem.begin(); itemStates != targetStateForItem.end(); ++itemStates) {
-            // Check the target states for this item
-            for (set<int>::iterator targetState = itemStates->second.begin(); targetState != itemStates->second.end(); ++targetState) {
-                // Can't resolve this conflict if more than one item can produce this state
-                if (usedStates.find(*targetState) != usedStates.end()) {
-                    canResolve = false;
-                    break;
-                }
-
-                // Add this state to the set
-                usedStates.insert(*targetState);
-            }
+        // We can resolve this conflict if no two reductions can lead to the terminal for the same parser stack
+        bool canResolve = true;
 
-            // Don't bother continuing to check if we can't resolve this conflict
-            if (!canResolve) break;
+        for (size_t first = 0; first < uncovered.size() && canResolve; ++first) {
+            for (size_t second = first+1; second < uncovered.size() && canResolve; ++second) {
+                canResolve = !share_stack(*reduce->second[first]->rule(), uncovered[first], *reduce->second[second]->rule(), uncovered[second], builder);
+            }
         }
 
         // If we can resolve this conflict, then update the actions
-- 
2.43.0


From b7a3924f96052717e316bc08cfe8d0449bb6e3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:33 +0000
Subject: [PATCH 24/59] fix: generated parsers give empty * lists the position
 they were found at

---
 TameParse/Compiler/OutputStages/cplusplus.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/TameParse/Compiler/OutputStages/cplusplus.cpp b/TameParse/Compiler/OutputStages/cplusplus.cpp
index 435087b..9989f48 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.cpp
+++ b/TameParse/Compiler/OutputStages/cplusplus.cpp
@@ -1620,7 +1620,9 @@ void output_cplusplus::source_reduce_actions() {
                 // The constructor is delcared for the item that contains the repetition
                 if (!hasConstructor && nonterm->item->type() == item::repeat_zero_or_one) {
                     // This is the empty rule in a zero-or-more repetition: create an empty item
-                    *m_SourceFile << "        return node(new " << ntName << "());\n";
+                    *m_SourceFile << "        util::syntax_ptr<class " << ntName << "> list(new " << ntName << "());\n";
+                    *m_SourceFile << "        const_cast<" << ntName << "*>(list.item())->set_position(lookaheadPosition);\n";
+                    *m_SourceFile << "        return list.cast_to<syntax_node>();\n";
                 } else {
                     // Get the node where the definition is being built up
                     *m_SourceFile << "        util::syntax_ptr<class " << ntName << "> list(";
-- 
2.43.0


From a411fbdfb895fd76db69d16fbb2f2b145f2ea727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:45 +0000
Subject: [PATCH 25/59] fix: positions of guards, and of items and productions
 that grow as parts are added

---
 TameParse/Language/ebnf_item.cpp             | 2 +-
 TameParse/Language/language_parser.cpp       | 2 +-
 TameParse/Language/production_definition.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/TameParse/Language/ebnf_item.cpp b/TameParse/Language/ebnf_item.cpp
index 4f6d0fa..1e198ce 100644
--- a/TameParse/Language/ebnf_item.cpp
+++ b/TameParse/Language/ebnf_item.cpp
@@ -104,7 +104,7 @@ void ebnf_item::add_child(ebnf_item* newChild) {
             
             // If the end position if greater than the current end position, then update it
             if (newChild->end_pos() > end_pos()) {
-                set_end_pos(end_pos());
+                set_end_pos(newChild->end_pos());
             }
         }
     }
diff --git a/TameParse/Language/language_parser.cpp b/TameParse/Language/language_parser.cpp
index 73618e3..14cc0af 100644
--- a/TameParse/Language/language_parser.cpp
+++ b/TameParse/Language/language_parser.cpp
@@ -369,7 +369,7 @@ static ebnf_item* definition_for(const ast_Simple_Ebnf_Item* simpleItem) {
         }
         
         // Turn into a guard item
-        ebnf_item* guardItem = new ebnf_item(ebnf_item::ebnf_guard, attr);
+        ebnf_item* guardItem = new ebnf_item(ebnf_item::ebnf_guard, attr, simpleItem->pos(), simpleItem->final_pos());
         guardItem->add_child(internalItem);
         
         return guardItem;
diff --git a/TameParse/Language/production_definition.cpp b/TameParse/Language/production_definition.cpp
index 1be8e76..ec3dacd 100644
--- a/TameParse/Language/production_definition.cpp
+++ b/TameParse/Language/production_definition.cpp
@@ -82,7 +82,7 @@ void production_definition::add_item(ebnf_item* newItem) {
     }
     
     if (newItem->start_pos() < start_pos()) {
-        set_start_pos(newItem->end_pos());
+        set_start_pos(newItem->start_pos());
     }
     
     if (newItem->end_pos() > end_pos()) {
-- 
2.43.0


From c7df3cea15bb8d40f7fbca2d111b8c9a90ec6345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:05 +0000
Subject: [PATCH 26/59] fix: copying a definition file copies all of it

---
 TameParse/Language/ebnf_item.cpp              |  1 +
 TameParse/Language/grammar_block.cpp          |  6 +++
 TameParse/Language/lexer_block.cpp            |  4 ++
 TameParse/Language/nonterminal_definition.cpp |  1 +
 TameParse/Language/precedence_block.cpp       | 37 +++++++++++++++++++
 TameParse/Language/precedence_block.h         |  6 +++
 TameParse/Language/test_block.cpp             |  3 ++
 TameParse/Language/toplevel_block.cpp         |  5 +++
 8 files changed, 63 insertions(+)

diff --git a/TameParse/Language/ebnf_item.cpp b/TameParse/Language/ebnf_item.cpp
index 1e198ce..dd0a84d 100644
--- a/TameParse/Language/ebnf_item.cpp
+++ b/TameParse/Language/ebnf_item.cpp
@@ -72,6 +72,7 @@ ebnf_item& ebnf_item::operator=(const ebnf_item& copyFrom) {
     m_ChildItems.clear();
     
     // Copy the items from the source
+    m_Type              = copyFrom.m_Type;
     m_Identifier        = copyFrom.m_Identifier;
     m_SourceIdentifier  = copyFrom.m_SourceIdentifier;
     m_Attributes        = copyFrom.m_Attributes;
diff --git a/TameParse/Language/grammar_block.cpp b/TameParse/Language/grammar_block.cpp
index 98d1c91..52d3a82 100644
--- a/TameParse/Language/grammar_block.cpp
+++ b/TameParse/Language/grammar_block.cpp
@@ -50,6 +50,9 @@ grammar_block::~grammar_block() {
 
 /// \brief Assigns the value of this grammar block
 grammar_block& grammar_block::operator=(const grammar_block& copyFrom) {
+    // Can't assign to ourselves
+    if (&copyFrom == this) return *this;
+
     // Delete the nonterminals
     for (nonterminal_definition_list::iterator toDelete = m_Nonterminals.begin(); toDelete != m_Nonterminals.end(); ++toDelete) {
         delete *toDelete;
@@ -60,6 +63,9 @@ grammar_block& grammar_block::operator=(const grammar_block& copyFrom) {
     for (iterator toCopy = copyFrom.begin(); toCopy != copyFrom.end(); ++toCopy) {
         m_Nonterminals.push_back(new nonterminal_definition(**toCopy));
     }
+
+    set_start_pos(copyFrom.start_pos());
+    set_end_pos(copyFrom.end_pos());
     
     return *this;
 }
diff --git a/TameParse/Language/lexer_block.cpp b/TameParse/Language/lexer_block.cpp
index 7db7aae..e42d1b3 100644
--- a/TameParse/Language/lexer_block.cpp
+++ b/TameParse/Language/lexer_block.cpp
@@ -62,6 +62,10 @@ lexer_block& lexer_block::operator=(const lexer_block& copyFrom) {
     }
     m_Lexemes.clear();
     
+    m_Weak              = copyFrom.m_Weak;
+    m_CaseInsensitive   = copyFrom.m_CaseInsensitive;
+    m_CaseSensitive     = copyFrom.m_CaseSensitive;
+
     // Copy the items from the source
     for (iterator toCopy = copyFrom.begin(); toCopy != copyFrom.end(); ++toCopy) {
         m_Lexemes.push_back(new lexeme_definition(**toCopy));
diff --git a/TameParse/Language/nonterminal_definition.cpp b/TameParse/Language/nonterminal_definition.cpp
index 122fd52..02d021e 100644
--- a/TameParse/Language/nonterminal_definition.cpp
+++ b/TameParse/Language/nonterminal_definition.cpp
@@ -66,6 +66,7 @@ nonterminal_definition& nonterminal_definition::operator=(const nonterminal_defi
         m_Productions.push_back(new production_definition(**toCopy));
     }
     
+    m_Type       = copyFrom.m_Type;
     m_Identifier = copyFrom.identifier();
     set_start_pos(copyFrom.start_pos());
     set_end_pos(copyFrom.end_pos());
diff --git a/TameParse/Language/precedence_block.cpp b/TameParse/Language/precedence_block.cpp
index f8785de..6dbbb35 100644
--- a/TameParse/Language/precedence_block.cpp
+++ b/TameParse/Language/precedence_block.cpp
@@ -35,6 +35,43 @@ precedence_block::precedence_block(position& start, position& end)
 : block(start, end) {
 }
 
+/// \brief Creates a precedence block by copying an existing one
+precedence_block::precedence_block(const precedence_block& copyFrom)
+: block(copyFrom) {
+    (*this) = copyFrom;
+}
+
+/// \brief Assigns the content of this block
+precedence_block& precedence_block::operator=(const precedence_block& copyFrom) {
+    // Can't assign to ourselves
+    if (&copyFrom == this) return *this;
+
+    // Free up the existing items
+    for (list::iterator oldItem = m_List.begin(); oldItem != m_List.end(); ++oldItem) {
+        for (ebnf_item_list::iterator ebnfItem = oldItem->items.begin(); ebnfItem != oldItem->items.end(); ++ebnfItem) {
+            delete *ebnfItem;
+        }
+    }
+    m_List.clear();
+
+    // Copy the items from the source
+    for (iterator toCopy = copyFrom.begin(); toCopy != copyFrom.end(); ++toCopy) {
+        item newItem;
+        newItem.assoc = toCopy->assoc;
+
+        for (ebnf_item_list::const_iterator ebnfItem = toCopy->items.begin(); ebnfItem != toCopy->items.end(); ++ebnfItem) {
+            newItem.items.push_back(new ebnf_item(**ebnfItem));
+        }
+
+        m_List.push_back(newItem);
+    }
+
+    set_start_pos(copyFrom.start_pos());
+    set_end_pos(copyFrom.end_pos());
+
+    return *this;
+}
+
 /// \brief Destructor
 precedence_block::~precedence_block() {
     // Free up the items
diff --git a/TameParse/Language/precedence_block.h b/TameParse/Language/precedence_block.h
index b6e8b97..205bd42 100644
--- a/TameParse/Language/precedence_block.h
+++ b/TameParse/Language/precedence_block.h
@@ -75,6 +75,12 @@ namespace yy_language {
     public:
         /// \brief Creates a new precedence definition
         precedence_block(position& start, position& end);
+
+        /// \brief Creates a precedence block by copying an existing one
+        precedence_block(const precedence_block& copyFrom);
+
+        /// \brief Assigns the content of this block
+        precedence_block& operator=(const precedence_block& copyFrom);
         
         /// \brief Destructor
         virtual ~precedence_block();
diff --git a/TameParse/Language/test_block.cpp b/TameParse/Language/test_block.cpp
index 733cfcb..6b4c1a4 100644
--- a/TameParse/Language/test_block.cpp
+++ b/TameParse/Language/test_block.cpp
@@ -58,6 +58,9 @@ test_block& test_block::operator=(const test_block& assignFrom) {
     for (test_block::iterator defn = assignFrom.begin(); defn != assignFrom.end(); ++defn) {
         m_TestDefinitions.push_back(new test_definition(**defn));
     }
+
+    set_start_pos(assignFrom.start_pos());
+    set_end_pos(assignFrom.end_pos());
     
     return *this;
 }
diff --git a/TameParse/Language/toplevel_block.cpp b/TameParse/Language/toplevel_block.cpp
index 5eaeb4c..cfea806 100644
--- a/TameParse/Language/toplevel_block.cpp
+++ b/TameParse/Language/toplevel_block.cpp
@@ -97,6 +97,11 @@ toplevel_block& toplevel_block::operator=(const toplevel_block& copyFrom) {
     if (m_ParserBlock)      delete m_ParserBlock;
     if (m_TestBlock)        delete m_TestBlock;
     
+    m_ImportBlock   = NULL;
+    m_LanguageBlock = NULL;
+    m_ParserBlock   = NULL;
+    m_TestBlock     = NULL;
+
     // Copy
     set_start_pos(copyFrom.start_pos());
     set_end_pos(copyFrom.end_pos());
-- 
2.43.0


From 1f03406eefae4f8b907dfe73d12e806a1e634b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:35 +0000
Subject: [PATCH 27/59] fix: parser, test and precedence blocks keep their
 positions when wrapped

---
 TameParse/Language/language_unit.cpp  | 4 ++++
 TameParse/Language/toplevel_block.cpp | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/TameParse/Language/language_unit.cpp b/TameParse/Language/language_unit.cpp
index 1e06502..07682f9 100644
--- a/TameParse/Language/language_unit.cpp
+++ b/TameParse/Language/language_unit.cpp
@@ -60,6 +60,10 @@ language_unit::language_unit(precedence_block* precedence)
 , m_LexerBlock(NULL)
 , m_Precedence(precedence)
 , m_Type(unit_precedence_definition) {
+    if (precedence) {
+        set_start_pos(precedence->start_pos());
+        set_end_pos(precedence->end_pos());
+    }
 }
 
 /// \brief Copies a language unit
diff --git a/TameParse/Language/toplevel_block.cpp b/TameParse/Language/toplevel_block.cpp
index cfea806..dd79f8d 100644
--- a/TameParse/Language/toplevel_block.cpp
+++ b/TameParse/Language/toplevel_block.cpp
@@ -59,6 +59,10 @@ toplevel_block::toplevel_block(parser_block* parser)
 , m_LanguageBlock(NULL)
 , m_ParserBlock(parser)
 , m_TestBlock(NULL) {
+    if (parser) {
+        set_start_pos(parser->start_pos());
+        set_end_pos(parser->end_pos());
+    }
 }
 
 /// \brief Creates a new top level block containing a test block
@@ -67,6 +71,10 @@ toplevel_block::toplevel_block(test_block* test)
 , m_LanguageBlock(NULL)
 , m_ParserBlock(NULL)
 , m_TestBlock(test) {
+    if (test) {
+        set_start_pos(test->start_pos());
+        set_end_pos(test->end_pos());
+    }
 }
 
 /// \brief Copies an existing toplevel block
-- 
2.43.0


From 2c5b826e147478d903f9dcabdfde5813f83488ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:38 +0000
Subject: [PATCH 28/59] fix: unicode classes contain the whole of the blocks
 that are listed by first and last character

---
 TameParse/Unicode/unicode.pl     | 5 ++++-
 TameParse/Unicode/unicode_data.h | 6 +++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/TameParse/Unicode/unicode.pl b/TameParse/Unicode/unicode.pl
index 19c87fc..13bb8d5 100755
--- a/TameParse/Unicode/unicode.pl
+++ b/TameParse/Unicode/unicode.pl
@@ -17,6 +17,9 @@ while ($_ = <>) {
 	$charNum 	= hex($fields[0]);
 	$charType	= $fields[2];
 
+	# Large blocks are represented by just their first and last characters ('<Name, First>' and '<Name, Last>')
+	$isLast		= ($fields[1] =~ /, Last>$/);
+
 	# Get the range array for this value
 	$rangeArray = $charRanges->{$charType};
 
@@ -29,7 +32,7 @@ while ($_ = <>) {
 		$lastRange = $rangeArray->[-1];
 
 		# Compare to the character
-		if ($lastRange->[1] == $charNum - 1) {
+		if ($lastRange->[1] == $charNum - 1 || $isLast) {
 			# Just update the range
 			$lastRange->[1] = $charNum;
 		} else {
diff --git a/TameParse/Unicode/unicode_data.h b/TameParse/Unicode/unicode_data.h
index 89810a9..2f9113d 100644
--- a/TameParse/Unicode/unicode_data.h
+++ b/TameParse/Unicode/unicode_data.h
@@ -1,6 +1,6 @@
 /* Unicode character type table generated by unicode.pl */
 
-static unicode::range s_RangeCo[] = { { 57344, 57345 }, { 63743, 63744 }, { 983040, 983041 }, { 1048573, 1048574 }, { 1048576, 1048577 }, { 1114109, 1114110 }, { -1, -1 } };
+static unicode::range s_RangeCo[] = { { 57344, 63744 }, { 983040, 1048574 }, { 1048576, 1114110 }, { -1, -1 } };
 static unicode::range s_RangeLm[] = { { 688, 706 }, { 710, 722 }, { 736, 741 }, { 748, 749 }, { 750, 751 }, { 884, 885 }, { 890, 891 }, { 1369, 1370 }, { 1600, 1601 }, { 1765, 1767 }, { 2036, 2038 }, { 2042, 2043 }, { 2074, 2075 }, { 2084, 2085 }, { 2088, 2089 }, { 2417, 2418 }, { 3654, 3655 }, { 3782, 3783 }, { 4348, 4349 }, { 6103, 6104 }, { 6211, 6212 }, { 6823, 6824 }, { 7288, 7294 }, { 7468, 7522 }, { 7544, 7545 }, { 7579, 7616 }, { 8305, 8306 }, { 8319, 8320 }, { 8336, 8349 }, { 11389, 11390 }, { 11631, 11632 }, { 11823, 11824 }, { 12293, 12294 }, { 12337, 12342 }, { 12347, 12348 }, { 12445, 12447 }, { 12540, 12543 }, { 40981, 40982 }, { 42232, 42238 }, { 42508, 42509 }, { 42623, 42624 }, { 42775, 42784 }, { 42864, 42865 }, { 42888, 42889 }, { 43471, 43472 }, { 43632, 43633 }, { 43741, 43742 }, { 65392, 65393 }, { 65438, 65440 }, { -1, -1 } };
 static unicode::range s_RangePd[] = { { 45, 46 }, { 1418, 1419 }, { 1470, 1471 }, { 5120, 5121 }, { 6150, 6151 }, { 8208, 8214 }, { 11799, 11800 }, { 11802, 11803 }, { 12316, 12317 }, { 12336, 12337 }, { 12448, 12449 }, { 65073, 65075 }, { 65112, 65113 }, { 65123, 65124 }, { 65293, 65294 }, { -1, -1 } };
 static unicode::range s_RangeSo[] = { { 166, 168 }, { 169, 170 }, { 174, 175 }, { 176, 177 }, { 182, 183 }, { 1154, 1155 }, { 1550, 1552 }, { 1758, 1759 }, { 1769, 1770 }, { 1789, 1791 }, { 2038, 2039 }, { 2554, 2555 }, { 2928, 2929 }, { 3059, 3065 }, { 3066, 3067 }, { 3199, 3200 }, { 3449, 3450 }, { 3841, 3844 }, { 3859, 3864 }, { 3866, 3872 }, { 3892, 3893 }, { 3894, 3895 }, { 3896, 3897 }, { 4030, 4038 }, { 4039, 4045 }, { 4046, 4048 }, { 4053, 4057 }, { 4254, 4256 }, { 4960, 4961 }, { 5008, 5018 }, { 6464, 6465 }, { 6622, 6656 }, { 7009, 7019 }, { 7028, 7037 }, { 8448, 8450 }, { 8451, 8455 }, { 8456, 8458 }, { 8468, 8469 }, { 8470, 8472 }, { 8478, 8484 }, { 8485, 8486 }, { 8487, 8488 }, { 8489, 8490 }, { 8494, 8495 }, { 8506, 8508 }, { 8522, 8523 }, { 8524, 8526 }, { 8527, 8528 }, { 8597, 8602 }, { 8604, 8608 }, { 8609, 8611 }, { 8612, 8614 }, { 8615, 8622 }, { 8623, 8654 }, { 8656, 8658 }, { 8659, 8660 }, { 8661, 8692 }, { 8960, 8968 }, { 8972, 8992 }, { 8994, 9001 }, { 9003, 9084 }, { 9085, 9115 }, { 9140, 9180 }, { 9186, 9204 }, { 9216, 9255 }, { 9280, 9291 }, { 9372, 9450 }, { 9472, 9655 }, { 9656, 9665 }, { 9666, 9720 }, { 9728, 9839 }, { 9840, 9984 }, { 9985, 10088 }, { 10132, 10176 }, { 10240, 10496 }, { 11008, 11056 }, { 11077, 11079 }, { 11088, 11098 }, { 11493, 11499 }, { 11904, 11930 }, { 11931, 12020 }, { 12032, 12246 }, { 12272, 12284 }, { 12292, 12293 }, { 12306, 12308 }, { 12320, 12321 }, { 12342, 12344 }, { 12350, 12352 }, { 12688, 12690 }, { 12694, 12704 }, { 12736, 12772 }, { 12800, 12831 }, { 12842, 12881 }, { 12896, 12928 }, { 12938, 12977 }, { 12992, 13055 }, { 13056, 13312 }, { 19904, 19968 }, { 42128, 42183 }, { 43048, 43052 }, { 43062, 43064 }, { 43065, 43066 }, { 43639, 43642 }, { 65021, 65022 }, { 65508, 65509 }, { 65512, 65513 }, { 65517, 65519 }, { 65532, 65534 }, { 65794, 65795 }, { 65847, 65856 }, { 65913, 65930 }, { 65936, 65948 }, { 66000, 66045 }, { 118784, 119030 }, { 119040, 119079 }, { 119081, 119141 }, { 119146, 119149 }, { 119171, 119173 }, { 119180, 119210 }, { 119214, 119262 }, { 119296, 119362 }, { 119365, 119366 }, { 119552, 119639 }, { 126976, 127020 }, { 127024, 127124 }, { 127136, 127151 }, { 127153, 127167 }, { 127169, 127184 }, { 127185, 127200 }, { 127248, 127279 }, { 127280, 127338 }, { 127344, 127387 }, { 127462, 127491 }, { 127504, 127547 }, { 127552, 127561 }, { 127568, 127570 }, { 127744, 127777 }, { 127792, 127798 }, { 127799, 127869 }, { 127872, 127892 }, { 127904, 127941 }, { 127942, 127947 }, { 127968, 127985 }, { 128000, 128063 }, { 128064, 128065 }, { 128066, 128248 }, { 128249, 128253 }, { 128256, 128318 }, { 128336, 128360 }, { 128507, 128512 }, { 128513, 128529 }, { 128530, 128533 }, { 128534, 128535 }, { 128536, 128537 }, { 128538, 128539 }, { 128540, 128543 }, { 128544, 128550 }, { 128552, 128556 }, { 128557, 128558 }, { 128560, 128564 }, { 128565, 128577 }, { 128581, 128592 }, { 128640, 128710 }, { 128768, 128884 }, { -1, -1 } };
@@ -18,11 +18,11 @@ static unicode::range s_RangeCc[] = { { 0, 32 }, { 127, 160 }, { -1, -1 } };
 static unicode::range s_RangeLu[] = { { 65, 91 }, { 192, 215 }, { 216, 223 }, { 256, 257 }, { 258, 259 }, { 260, 261 }, { 262, 263 }, { 264, 265 }, { 266, 267 }, { 268, 269 }, { 270, 271 }, { 272, 273 }, { 274, 275 }, { 276, 277 }, { 278, 279 }, { 280, 281 }, { 282, 283 }, { 284, 285 }, { 286, 287 }, { 288, 289 }, { 290, 291 }, { 292, 293 }, { 294, 295 }, { 296, 297 }, { 298, 299 }, { 300, 301 }, { 302, 303 }, { 304, 305 }, { 306, 307 }, { 308, 309 }, { 310, 311 }, { 313, 314 }, { 315, 316 }, { 317, 318 }, { 319, 320 }, { 321, 322 }, { 323, 324 }, { 325, 326 }, { 327, 328 }, { 330, 331 }, { 332, 333 }, { 334, 335 }, { 336, 337 }, { 338, 339 }, { 340, 341 }, { 342, 343 }, { 344, 345 }, { 346, 347 }, { 348, 349 }, { 350, 351 }, { 352, 353 }, { 354, 355 }, { 356, 357 }, { 358, 359 }, { 360, 361 }, { 362, 363 }, { 364, 365 }, { 366, 367 }, { 368, 369 }, { 370, 371 }, { 372, 373 }, { 374, 375 }, { 376, 378 }, { 379, 380 }, { 381, 382 }, { 385, 387 }, { 388, 389 }, { 390, 392 }, { 393, 396 }, { 398, 402 }, { 403, 405 }, { 406, 409 }, { 412, 414 }, { 415, 417 }, { 418, 419 }, { 420, 421 }, { 422, 424 }, { 425, 426 }, { 428, 429 }, { 430, 432 }, { 433, 436 }, { 437, 438 }, { 439, 441 }, { 444, 445 }, { 452, 453 }, { 455, 456 }, { 458, 459 }, { 461, 462 }, { 463, 464 }, { 465, 466 }, { 467, 468 }, { 469, 470 }, { 471, 472 }, { 473, 474 }, { 475, 476 }, { 478, 479 }, { 480, 481 }, { 482, 483 }, { 484, 485 }, { 486, 487 }, { 488, 489 }, { 490, 491 }, { 492, 493 }, { 494, 495 }, { 497, 498 }, { 500, 501 }, { 502, 505 }, { 506, 507 }, { 508, 509 }, { 510, 511 }, { 512, 513 }, { 514, 515 }, { 516, 517 }, { 518, 519 }, { 520, 521 }, { 522, 523 }, { 524, 525 }, { 526, 527 }, { 528, 529 }, { 530, 531 }, { 532, 533 }, { 534, 535 }, { 536, 537 }, { 538, 539 }, { 540, 541 }, { 542, 543 }, { 544, 545 }, { 546, 547 }, { 548, 549 }, { 550, 551 }, { 552, 553 }, { 554, 555 }, { 556, 557 }, { 558, 559 }, { 560, 561 }, { 562, 563 }, { 570, 572 }, { 573, 575 }, { 577, 578 }, { 579, 583 }, { 584, 585 }, { 586, 587 }, { 588, 589 }, { 590, 591 }, { 880, 881 }, { 882, 883 }, { 886, 887 }, { 902, 903 }, { 904, 907 }, { 908, 909 }, { 910, 912 }, { 913, 930 }, { 931, 940 }, { 975, 976 }, { 978, 981 }, { 984, 985 }, { 986, 987 }, { 988, 989 }, { 990, 991 }, { 992, 993 }, { 994, 995 }, { 996, 997 }, { 998, 999 }, { 1000, 1001 }, { 1002, 1003 }, { 1004, 1005 }, { 1006, 1007 }, { 1012, 1013 }, { 1015, 1016 }, { 1017, 1019 }, { 1021, 1072 }, { 1120, 1121 }, { 1122, 1123 }, { 1124, 1125 }, { 1126, 1127 }, { 1128, 1129 }, { 1130, 1131 }, { 1132, 1133 }, { 1134, 1135 }, { 1136, 1137 }, { 1138, 1139 }, { 1140, 1141 }, { 1142, 1143 }, { 1144, 1145 }, { 1146, 1147 }, { 1148, 1149 }, { 1150, 1151 }, { 1152, 1153 }, { 1162, 1163 }, { 1164, 1165 }, { 1166, 1167 }, { 1168, 1169 }, { 1170, 1171 }, { 1172, 1173 }, { 1174, 1175 }, { 1176, 1177 }, { 1178, 1179 }, { 1180, 1181 }, { 1182, 1183 }, { 1184, 1185 }, { 1186, 1187 }, { 1188, 1189 }, { 1190, 1191 }, { 1192, 1193 }, { 1194, 1195 }, { 1196, 1197 }, { 1198, 1199 }, { 1200, 1201 }, { 1202, 1203 }, { 1204, 1205 }, { 1206, 1207 }, { 1208, 1209 }, { 1210, 1211 }, { 1212, 1213 }, { 1214, 1215 }, { 1216, 1218 }, { 1219, 1220 }, { 1221, 1222 }, { 1223, 1224 }, { 1225, 1226 }, { 1227, 1228 }, { 1229, 1230 }, { 1232, 1233 }, { 1234, 1235 }, { 1236, 1237 }, { 1238, 1239 }, { 1240, 1241 }, { 1242, 1243 }, { 1244, 1245 }, { 1246, 1247 }, { 1248, 1249 }, { 1250, 1251 }, { 1252, 1253 }, { 1254, 1255 }, { 1256, 1257 }, { 1258, 1259 }, { 1260, 1261 }, { 1262, 1263 }, { 1264, 1265 }, { 1266, 1267 }, { 1268, 1269 }, { 1270, 1271 }, { 1272, 1273 }, { 1274, 1275 }, { 1276, 1277 }, { 1278, 1279 }, { 1280, 1281 }, { 1282, 1283 }, { 1284, 1285 }, { 1286, 1287 }, { 1288, 1289 }, { 1290, 1291 }, { 1292, 1293 }, { 1294, 1295 }, { 1296, 1297 }, { 1298, 1299 }, { 1300, 1301 }, { 1302, 1303 }, { 1304, 1305 }, { 1306, 1307 }, { 1308, 1309 }, { 1310, 1311 }, { 1312, 1313 }, { 1314, 1315 }, { 1316, 1317 }, { 1318, 1319 }, { 1329, 1367 }, { 4256, 4294 }, { 7680, 7681 }, { 7682, 7683 }, { 7684, 7685 }, { 7686, 7687 }, { 7688, 7689 }, { 7690, 7691 }, { 7692, 7693 }, { 7694, 7695 }, { 7696, 7697 }, { 7698, 7699 }, { 7700, 7701 }, { 7702, 7703 }, { 7704, 7705 }, { 7706, 7707 }, { 7708, 7709 }, { 7710, 7711 }, { 7712, 7713 }, { 7714, 7715 }, { 7716, 7717 }, { 7718, 7719 }, { 7720, 7721 }, { 7722, 7723 }, { 7724, 7725 }, { 7726, 7727 }, { 7728, 7729 }, { 7730, 7731 }, { 7732, 7733 }, { 7734, 7735 }, { 7736, 7737 }, { 7738, 7739 }, { 7740, 7741 }, { 7742, 7743 }, { 7744, 7745 }, { 7746, 7747 }, { 7748, 7749 }, { 7750, 7751 }, { 7752, 7753 }, { 7754, 7755 }, { 7756, 7757 }, { 7758, 7759 }, { 7760, 7761 }, { 7762, 7763 }, { 7764, 7765 }, { 7766, 7767 }, { 7768, 7769 }, { 7770, 7771 }, { 7772, 7773 }, { 7774, 7775 }, { 7776, 7777 }, { 7778, 7779 }, { 7780, 7781 }, { 7782, 7783 }, { 7784, 7785 }, { 7786, 7787 }, { 7788, 7789 }, { 7790, 7791 }, { 7792, 7793 }, { 7794, 7795 }, { 7796, 7797 }, { 7798, 7799 }, { 7800, 7801 }, { 7802, 7803 }, { 7804, 7805 }, { 7806, 7807 }, { 7808, 7809 }, { 7810, 7811 }, { 7812, 7813 }, { 7814, 7815 }, { 7816, 7817 }, { 7818, 7819 }, { 7820, 7821 }, { 7822, 7823 }, { 7824, 7825 }, { 7826, 7827 }, { 7828, 7829 }, { 7838, 7839 }, { 7840, 7841 }, { 7842, 7843 }, { 7844, 7845 }, { 7846, 7847 }, { 7848, 7849 }, { 7850, 7851 }, { 7852, 7853 }, { 7854, 7855 }, { 7856, 7857 }, { 7858, 7859 }, { 7860, 7861 }, { 7862, 7863 }, { 7864, 7865 }, { 7866, 7867 }, { 7868, 7869 }, { 7870, 7871 }, { 7872, 7873 }, { 7874, 7875 }, { 7876, 7877 }, { 7878, 7879 }, { 7880, 7881 }, { 7882, 7883 }, { 7884, 7885 }, { 7886, 7887 }, { 7888, 7889 }, { 7890, 7891 }, { 7892, 7893 }, { 7894, 7895 }, { 7896, 7897 }, { 7898, 7899 }, { 7900, 7901 }, { 7902, 7903 }, { 7904, 7905 }, { 7906, 7907 }, { 7908, 7909 }, { 7910, 7911 }, { 7912, 7913 }, { 7914, 7915 }, { 7916, 7917 }, { 7918, 7919 }, { 7920, 7921 }, { 7922, 7923 }, { 7924, 7925 }, { 7926, 7927 }, { 7928, 7929 }, { 7930, 7931 }, { 7932, 7933 }, { 7934, 7935 }, { 7944, 7952 }, { 7960, 7966 }, { 7976, 7984 }, { 7992, 8000 }, { 8008, 8014 }, { 8025, 8026 }, { 8027, 8028 }, { 8029, 8030 }, { 8031, 8032 }, { 8040, 8048 }, { 8120, 8124 }, { 8136, 8140 }, { 8152, 8156 }, { 8168, 8173 }, { 8184, 8188 }, { 8450, 8451 }, { 8455, 8456 }, { 8459, 8462 }, { 8464, 8467 }, { 8469, 8470 }, { 8473, 8478 }, { 8484, 8485 }, { 8486, 8487 }, { 8488, 8489 }, { 8490, 8494 }, { 8496, 8500 }, { 8510, 8512 }, { 8517, 8518 }, { 8579, 8580 }, { 11264, 11311 }, { 11360, 11361 }, { 11362, 11365 }, { 11367, 11368 }, { 11369, 11370 }, { 11371, 11372 }, { 11373, 11377 }, { 11378, 11379 }, { 11381, 11382 }, { 11390, 11393 }, { 11394, 11395 }, { 11396, 11397 }, { 11398, 11399 }, { 11400, 11401 }, { 11402, 11403 }, { 11404, 11405 }, { 11406, 11407 }, { 11408, 11409 }, { 11410, 11411 }, { 11412, 11413 }, { 11414, 11415 }, { 11416, 11417 }, { 11418, 11419 }, { 11420, 11421 }, { 11422, 11423 }, { 11424, 11425 }, { 11426, 11427 }, { 11428, 11429 }, { 11430, 11431 }, { 11432, 11433 }, { 11434, 11435 }, { 11436, 11437 }, { 11438, 11439 }, { 11440, 11441 }, { 11442, 11443 }, { 11444, 11445 }, { 11446, 11447 }, { 11448, 11449 }, { 11450, 11451 }, { 11452, 11453 }, { 11454, 11455 }, { 11456, 11457 }, { 11458, 11459 }, { 11460, 11461 }, { 11462, 11463 }, { 11464, 11465 }, { 11466, 11467 }, { 11468, 11469 }, { 11470, 11471 }, { 11472, 11473 }, { 11474, 11475 }, { 11476, 11477 }, { 11478, 11479 }, { 11480, 11481 }, { 11482, 11483 }, { 11484, 11485 }, { 11486, 11487 }, { 11488, 11489 }, { 11490, 11491 }, { 11499, 11500 }, { 11501, 11502 }, { 42560, 42561 }, { 42562, 42563 }, { 42564, 42565 }, { 42566, 42567 }, { 42568, 42569 }, { 42570, 42571 }, { 42572, 42573 }, { 42574, 42575 }, { 42576, 42577 }, { 42578, 42579 }, { 42580, 42581 }, { 42582, 42583 }, { 42584, 42585 }, { 42586, 42587 }, { 42588, 42589 }, { 42590, 42591 }, { 42592, 42593 }, { 42594, 42595 }, { 42596, 42597 }, { 42598, 42599 }, { 42600, 42601 }, { 42602, 42603 }, { 42604, 42605 }, { 42624, 42625 }, { 42626, 42627 }, { 42628, 42629 }, { 42630, 42631 }, { 42632, 42633 }, { 42634, 42635 }, { 42636, 42637 }, { 42638, 42639 }, { 42640, 42641 }, { 42642, 42643 }, { 42644, 42645 }, { 42646, 42647 }, { 42786, 42787 }, { 42788, 42789 }, { 42790, 42791 }, { 42792, 42793 }, { 42794, 42795 }, { 42796, 42797 }, { 42798, 42799 }, { 42802, 42803 }, { 42804, 42805 }, { 42806, 42807 }, { 42808, 42809 }, { 42810, 42811 }, { 42812, 42813 }, { 42814, 42815 }, { 42816, 42817 }, { 42818, 42819 }, { 42820, 42821 }, { 42822, 42823 }, { 42824, 42825 }, { 42826, 42827 }, { 42828, 42829 }, { 42830, 42831 }, { 42832, 42833 }, { 42834, 42835 }, { 42836, 42837 }, { 42838, 42839 }, { 42840, 42841 }, { 42842, 42843 }, { 42844, 42845 }, { 42846, 42847 }, { 42848, 42849 }, { 42850, 42851 }, { 42852, 42853 }, { 42854, 42855 }, { 42856, 42857 }, { 42858, 42859 }, { 42860, 42861 }, { 42862, 42863 }, { 42873, 42874 }, { 42875, 42876 }, { 42877, 42879 }, { 42880, 42881 }, { 42882, 42883 }, { 42884, 42885 }, { 42886, 42887 }, { 42891, 42892 }, { 42893, 42894 }, { 42896, 42897 }, { 42912, 42913 }, { 42914, 42915 }, { 42916, 42917 }, { 42918, 42919 }, { 42920, 42921 }, { 65313, 65339 }, { 66560, 66600 }, { 119808, 119834 }, { 119860, 119886 }, { 119912, 119938 }, { 119964, 119965 }, { 119966, 119968 }, { 119970, 119971 }, { 119973, 119975 }, { 119977, 119981 }, { 119982, 119990 }, { 120016, 120042 }, { 120068, 120070 }, { 120071, 120075 }, { 120077, 120085 }, { 120086, 120093 }, { 120120, 120122 }, { 120123, 120127 }, { 120128, 120133 }, { 120134, 120135 }, { 120138, 120145 }, { 120172, 120198 }, { 120224, 120250 }, { 120276, 120302 }, { 120328, 120354 }, { 120380, 120406 }, { 120432, 120458 }, { 120488, 120513 }, { 120546, 120571 }, { 120604, 120629 }, { 120662, 120687 }, { 120720, 120745 }, { 120778, 120779 }, { -1, -1 } };
 static unicode::range s_RangeMc[] = { { 2307, 2308 }, { 2363, 2364 }, { 2366, 2369 }, { 2377, 2381 }, { 2382, 2384 }, { 2434, 2436 }, { 2494, 2497 }, { 2503, 2505 }, { 2507, 2509 }, { 2519, 2520 }, { 2563, 2564 }, { 2622, 2625 }, { 2691, 2692 }, { 2750, 2753 }, { 2761, 2762 }, { 2763, 2765 }, { 2818, 2820 }, { 2878, 2879 }, { 2880, 2881 }, { 2887, 2889 }, { 2891, 2893 }, { 2903, 2904 }, { 3006, 3008 }, { 3009, 3011 }, { 3014, 3017 }, { 3018, 3021 }, { 3031, 3032 }, { 3073, 3076 }, { 3137, 3141 }, { 3202, 3204 }, { 3262, 3263 }, { 3264, 3269 }, { 3271, 3273 }, { 3274, 3276 }, { 3285, 3287 }, { 3330, 3332 }, { 3390, 3393 }, { 3398, 3401 }, { 3402, 3405 }, { 3415, 3416 }, { 3458, 3460 }, { 3535, 3538 }, { 3544, 3552 }, { 3570, 3572 }, { 3902, 3904 }, { 3967, 3968 }, { 4139, 4141 }, { 4145, 4146 }, { 4152, 4153 }, { 4155, 4157 }, { 4182, 4184 }, { 4194, 4197 }, { 4199, 4206 }, { 4227, 4229 }, { 4231, 4237 }, { 4239, 4240 }, { 4250, 4253 }, { 6070, 6071 }, { 6078, 6086 }, { 6087, 6089 }, { 6435, 6439 }, { 6441, 6444 }, { 6448, 6450 }, { 6451, 6457 }, { 6576, 6593 }, { 6600, 6602 }, { 6681, 6684 }, { 6741, 6742 }, { 6743, 6744 }, { 6753, 6754 }, { 6755, 6757 }, { 6765, 6771 }, { 6916, 6917 }, { 6965, 6966 }, { 6971, 6972 }, { 6973, 6978 }, { 6979, 6981 }, { 7042, 7043 }, { 7073, 7074 }, { 7078, 7080 }, { 7082, 7083 }, { 7143, 7144 }, { 7146, 7149 }, { 7150, 7151 }, { 7154, 7156 }, { 7204, 7212 }, { 7220, 7222 }, { 7393, 7394 }, { 7410, 7411 }, { 43043, 43045 }, { 43047, 43048 }, { 43136, 43138 }, { 43188, 43204 }, { 43346, 43348 }, { 43395, 43396 }, { 43444, 43446 }, { 43450, 43452 }, { 43453, 43457 }, { 43567, 43569 }, { 43571, 43573 }, { 43597, 43598 }, { 43643, 43644 }, { 44003, 44005 }, { 44006, 44008 }, { 44009, 44011 }, { 44012, 44013 }, { 69632, 69633 }, { 69634, 69635 }, { 69762, 69763 }, { 69808, 69811 }, { 69815, 69817 }, { 119141, 119143 }, { 119149, 119155 }, { -1, -1 } };
 static unicode::range s_RangeSm[] = { { 43, 44 }, { 60, 63 }, { 124, 125 }, { 126, 127 }, { 172, 173 }, { 177, 178 }, { 215, 216 }, { 247, 248 }, { 1014, 1015 }, { 1542, 1545 }, { 8260, 8261 }, { 8274, 8275 }, { 8314, 8317 }, { 8330, 8333 }, { 8472, 8473 }, { 8512, 8517 }, { 8523, 8524 }, { 8592, 8597 }, { 8602, 8604 }, { 8608, 8609 }, { 8611, 8612 }, { 8614, 8615 }, { 8622, 8623 }, { 8654, 8656 }, { 8658, 8659 }, { 8660, 8661 }, { 8692, 8960 }, { 8968, 8972 }, { 8992, 8994 }, { 9084, 9085 }, { 9115, 9140 }, { 9180, 9186 }, { 9655, 9656 }, { 9665, 9666 }, { 9720, 9728 }, { 9839, 9840 }, { 10176, 10181 }, { 10183, 10187 }, { 10188, 10189 }, { 10190, 10214 }, { 10224, 10240 }, { 10496, 10627 }, { 10649, 10712 }, { 10716, 10748 }, { 10750, 11008 }, { 11056, 11077 }, { 11079, 11085 }, { 64297, 64298 }, { 65122, 65123 }, { 65124, 65127 }, { 65291, 65292 }, { 65308, 65311 }, { 65372, 65373 }, { 65374, 65375 }, { 65506, 65507 }, { 65513, 65517 }, { 120513, 120514 }, { 120539, 120540 }, { 120571, 120572 }, { 120597, 120598 }, { 120629, 120630 }, { 120655, 120656 }, { 120687, 120688 }, { 120713, 120714 }, { 120745, 120746 }, { 120771, 120772 }, { -1, -1 } };
-static unicode::range s_RangeCs[] = { { 55296, 55297 }, { 56191, 56193 }, { 56319, 56321 }, { 57343, 57344 }, { -1, -1 } };
+static unicode::range s_RangeCs[] = { { 55296, 57344 }, { -1, -1 } };
 static unicode::range s_RangeLt[] = { { 453, 454 }, { 456, 457 }, { 459, 460 }, { 498, 499 }, { 8072, 8080 }, { 8088, 8096 }, { 8104, 8112 }, { 8124, 8125 }, { 8140, 8141 }, { 8188, 8189 }, { -1, -1 } };
 static unicode::range s_RangePc[] = { { 95, 96 }, { 8255, 8257 }, { 8276, 8277 }, { 65075, 65077 }, { 65101, 65104 }, { 65343, 65344 }, { -1, -1 } };
 static unicode::range s_RangeNl[] = { { 5870, 5873 }, { 8544, 8579 }, { 8581, 8585 }, { 12295, 12296 }, { 12321, 12330 }, { 12344, 12347 }, { 42726, 42736 }, { 65856, 65909 }, { 66369, 66370 }, { 66378, 66379 }, { 66513, 66518 }, { 74752, 74851 }, { -1, -1 } };
-static unicode::range s_RangeLo[] = { { 443, 444 }, { 448, 452 }, { 660, 661 }, { 1488, 1515 }, { 1520, 1523 }, { 1568, 1600 }, { 1601, 1611 }, { 1646, 1648 }, { 1649, 1748 }, { 1749, 1750 }, { 1774, 1776 }, { 1786, 1789 }, { 1791, 1792 }, { 1808, 1809 }, { 1810, 1840 }, { 1869, 1958 }, { 1969, 1970 }, { 1994, 2027 }, { 2048, 2070 }, { 2112, 2137 }, { 2308, 2362 }, { 2365, 2366 }, { 2384, 2385 }, { 2392, 2402 }, { 2418, 2424 }, { 2425, 2432 }, { 2437, 2445 }, { 2447, 2449 }, { 2451, 2473 }, { 2474, 2481 }, { 2482, 2483 }, { 2486, 2490 }, { 2493, 2494 }, { 2510, 2511 }, { 2524, 2526 }, { 2527, 2530 }, { 2544, 2546 }, { 2565, 2571 }, { 2575, 2577 }, { 2579, 2601 }, { 2602, 2609 }, { 2610, 2612 }, { 2613, 2615 }, { 2616, 2618 }, { 2649, 2653 }, { 2654, 2655 }, { 2674, 2677 }, { 2693, 2702 }, { 2703, 2706 }, { 2707, 2729 }, { 2730, 2737 }, { 2738, 2740 }, { 2741, 2746 }, { 2749, 2750 }, { 2768, 2769 }, { 2784, 2786 }, { 2821, 2829 }, { 2831, 2833 }, { 2835, 2857 }, { 2858, 2865 }, { 2866, 2868 }, { 2869, 2874 }, { 2877, 2878 }, { 2908, 2910 }, { 2911, 2914 }, { 2929, 2930 }, { 2947, 2948 }, { 2949, 2955 }, { 2958, 2961 }, { 2962, 2966 }, { 2969, 2971 }, { 2972, 2973 }, { 2974, 2976 }, { 2979, 2981 }, { 2984, 2987 }, { 2990, 3002 }, { 3024, 3025 }, { 3077, 3085 }, { 3086, 3089 }, { 3090, 3113 }, { 3114, 3124 }, { 3125, 3130 }, { 3133, 3134 }, { 3160, 3162 }, { 3168, 3170 }, { 3205, 3213 }, { 3214, 3217 }, { 3218, 3241 }, { 3242, 3252 }, { 3253, 3258 }, { 3261, 3262 }, { 3294, 3295 }, { 3296, 3298 }, { 3313, 3315 }, { 3333, 3341 }, { 3342, 3345 }, { 3346, 3387 }, { 3389, 3390 }, { 3406, 3407 }, { 3424, 3426 }, { 3450, 3456 }, { 3461, 3479 }, { 3482, 3506 }, { 3507, 3516 }, { 3517, 3518 }, { 3520, 3527 }, { 3585, 3633 }, { 3634, 3636 }, { 3648, 3654 }, { 3713, 3715 }, { 3716, 3717 }, { 3719, 3721 }, { 3722, 3723 }, { 3725, 3726 }, { 3732, 3736 }, { 3737, 3744 }, { 3745, 3748 }, { 3749, 3750 }, { 3751, 3752 }, { 3754, 3756 }, { 3757, 3761 }, { 3762, 3764 }, { 3773, 3774 }, { 3776, 3781 }, { 3804, 3806 }, { 3840, 3841 }, { 3904, 3912 }, { 3913, 3949 }, { 3976, 3981 }, { 4096, 4139 }, { 4159, 4160 }, { 4176, 4182 }, { 4186, 4190 }, { 4193, 4194 }, { 4197, 4199 }, { 4206, 4209 }, { 4213, 4226 }, { 4238, 4239 }, { 4304, 4347 }, { 4352, 4681 }, { 4682, 4686 }, { 4688, 4695 }, { 4696, 4697 }, { 4698, 4702 }, { 4704, 4745 }, { 4746, 4750 }, { 4752, 4785 }, { 4786, 4790 }, { 4792, 4799 }, { 4800, 4801 }, { 4802, 4806 }, { 4808, 4823 }, { 4824, 4881 }, { 4882, 4886 }, { 4888, 4955 }, { 4992, 5008 }, { 5024, 5109 }, { 5121, 5741 }, { 5743, 5760 }, { 5761, 5787 }, { 5792, 5867 }, { 5888, 5901 }, { 5902, 5906 }, { 5920, 5938 }, { 5952, 5970 }, { 5984, 5997 }, { 5998, 6001 }, { 6016, 6068 }, { 6108, 6109 }, { 6176, 6211 }, { 6212, 6264 }, { 6272, 6313 }, { 6314, 6315 }, { 6320, 6390 }, { 6400, 6429 }, { 6480, 6510 }, { 6512, 6517 }, { 6528, 6572 }, { 6593, 6600 }, { 6656, 6679 }, { 6688, 6741 }, { 6917, 6964 }, { 6981, 6988 }, { 7043, 7073 }, { 7086, 7088 }, { 7104, 7142 }, { 7168, 7204 }, { 7245, 7248 }, { 7258, 7288 }, { 7401, 7405 }, { 7406, 7410 }, { 8501, 8505 }, { 11568, 11622 }, { 11648, 11671 }, { 11680, 11687 }, { 11688, 11695 }, { 11696, 11703 }, { 11704, 11711 }, { 11712, 11719 }, { 11720, 11727 }, { 11728, 11735 }, { 11736, 11743 }, { 12294, 12295 }, { 12348, 12349 }, { 12353, 12439 }, { 12447, 12448 }, { 12449, 12539 }, { 12543, 12544 }, { 12549, 12590 }, { 12593, 12687 }, { 12704, 12731 }, { 12784, 12800 }, { 13312, 13313 }, { 19893, 19894 }, { 19968, 19969 }, { 40907, 40908 }, { 40960, 40981 }, { 40982, 42125 }, { 42192, 42232 }, { 42240, 42508 }, { 42512, 42528 }, { 42538, 42540 }, { 42606, 42607 }, { 42656, 42726 }, { 43003, 43010 }, { 43011, 43014 }, { 43015, 43019 }, { 43020, 43043 }, { 43072, 43124 }, { 43138, 43188 }, { 43250, 43256 }, { 43259, 43260 }, { 43274, 43302 }, { 43312, 43335 }, { 43360, 43389 }, { 43396, 43443 }, { 43520, 43561 }, { 43584, 43587 }, { 43588, 43596 }, { 43616, 43632 }, { 43633, 43639 }, { 43642, 43643 }, { 43648, 43696 }, { 43697, 43698 }, { 43701, 43703 }, { 43705, 43710 }, { 43712, 43713 }, { 43714, 43715 }, { 43739, 43741 }, { 43777, 43783 }, { 43785, 43791 }, { 43793, 43799 }, { 43808, 43815 }, { 43816, 43823 }, { 43968, 44003 }, { 44032, 44033 }, { 55203, 55204 }, { 55216, 55239 }, { 55243, 55292 }, { 63744, 64046 }, { 64048, 64110 }, { 64112, 64218 }, { 64285, 64286 }, { 64287, 64297 }, { 64298, 64311 }, { 64312, 64317 }, { 64318, 64319 }, { 64320, 64322 }, { 64323, 64325 }, { 64326, 64434 }, { 64467, 64830 }, { 64848, 64912 }, { 64914, 64968 }, { 65008, 65020 }, { 65136, 65141 }, { 65142, 65277 }, { 65382, 65392 }, { 65393, 65438 }, { 65440, 65471 }, { 65474, 65480 }, { 65482, 65488 }, { 65490, 65496 }, { 65498, 65501 }, { 65536, 65548 }, { 65549, 65575 }, { 65576, 65595 }, { 65596, 65598 }, { 65599, 65614 }, { 65616, 65630 }, { 65664, 65787 }, { 66176, 66205 }, { 66208, 66257 }, { 66304, 66335 }, { 66352, 66369 }, { 66370, 66378 }, { 66432, 66462 }, { 66464, 66500 }, { 66504, 66512 }, { 66640, 66718 }, { 67584, 67590 }, { 67592, 67593 }, { 67594, 67638 }, { 67639, 67641 }, { 67644, 67645 }, { 67647, 67670 }, { 67840, 67862 }, { 67872, 67898 }, { 68096, 68097 }, { 68112, 68116 }, { 68117, 68120 }, { 68121, 68148 }, { 68192, 68221 }, { 68352, 68406 }, { 68416, 68438 }, { 68448, 68467 }, { 68608, 68681 }, { 69635, 69688 }, { 69763, 69808 }, { 73728, 74607 }, { 77824, 78895 }, { 92160, 92729 }, { 110592, 110594 }, { 131072, 131073 }, { 173782, 173783 }, { 173824, 173825 }, { 177972, 177973 }, { 177984, 177985 }, { 178205, 178206 }, { 194560, 195102 }, { -1, -1 } };
+static unicode::range s_RangeLo[] = { { 443, 444 }, { 448, 452 }, { 660, 661 }, { 1488, 1515 }, { 1520, 1523 }, { 1568, 1600 }, { 1601, 1611 }, { 1646, 1648 }, { 1649, 1748 }, { 1749, 1750 }, { 1774, 1776 }, { 1786, 1789 }, { 1791, 1792 }, { 1808, 1809 }, { 1810, 1840 }, { 1869, 1958 }, { 1969, 1970 }, { 1994, 2027 }, { 2048, 2070 }, { 2112, 2137 }, { 2308, 2362 }, { 2365, 2366 }, { 2384, 2385 }, { 2392, 2402 }, { 2418, 2424 }, { 2425, 2432 }, { 2437, 2445 }, { 2447, 2449 }, { 2451, 2473 }, { 2474, 2481 }, { 2482, 2483 }, { 2486, 2490 }, { 2493, 2494 }, { 2510, 2511 }, { 2524, 2526 }, { 2527, 2530 }, { 2544, 2546 }, { 2565, 2571 }, { 2575, 2577 }, { 2579, 2601 }, { 2602, 2609 }, { 2610, 2612 }, { 2613, 2615 }, { 2616, 2618 }, { 2649, 2653 }, { 2654, 2655 }, { 2674, 2677 }, { 2693, 2702 }, { 2703, 2706 }, { 2707, 2729 }, { 2730, 2737 }, { 2738, 2740 }, { 2741, 2746 }, { 2749, 2750 }, { 2768, 2769 }, { 2784, 2786 }, { 2821, 2829 }, { 2831, 2833 }, { 2835, 2857 }, { 2858, 2865 }, { 2866, 2868 }, { 2869, 2874 }, { 2877, 2878 }, { 2908, 2910 }, { 2911, 2914 }, { 2929, 2930 }, { 2947, 2948 }, { 2949, 2955 }, { 2958, 2961 }, { 2962, 2966 }, { 2969, 2971 }, { 2972, 2973 }, { 2974, 2976 }, { 2979, 2981 }, { 2984, 2987 }, { 2990, 3002 }, { 3024, 3025 }, { 3077, 3085 }, { 3086, 3089 }, { 3090, 3113 }, { 3114, 3124 }, { 3125, 3130 }, { 3133, 3134 }, { 3160, 3162 }, { 3168, 3170 }, { 3205, 3213 }, { 3214, 3217 }, { 3218, 3241 }, { 3242, 3252 }, { 3253, 3258 }, { 3261, 3262 }, { 3294, 3295 }, { 3296, 3298 }, { 3313, 3315 }, { 3333, 3341 }, { 3342, 3345 }, { 3346, 3387 }, { 3389, 3390 }, { 3406, 3407 }, { 3424, 3426 }, { 3450, 3456 }, { 3461, 3479 }, { 3482, 3506 }, { 3507, 3516 }, { 3517, 3518 }, { 3520, 3527 }, { 3585, 3633 }, { 3634, 3636 }, { 3648, 3654 }, { 3713, 3715 }, { 3716, 3717 }, { 3719, 3721 }, { 3722, 3723 }, { 3725, 3726 }, { 3732, 3736 }, { 3737, 3744 }, { 3745, 3748 }, { 3749, 3750 }, { 3751, 3752 }, { 3754, 3756 }, { 3757, 3761 }, { 3762, 3764 }, { 3773, 3774 }, { 3776, 3781 }, { 3804, 3806 }, { 3840, 3841 }, { 3904, 3912 }, { 3913, 3949 }, { 3976, 3981 }, { 4096, 4139 }, { 4159, 4160 }, { 4176, 4182 }, { 4186, 4190 }, { 4193, 4194 }, { 4197, 4199 }, { 4206, 4209 }, { 4213, 4226 }, { 4238, 4239 }, { 4304, 4347 }, { 4352, 4681 }, { 4682, 4686 }, { 4688, 4695 }, { 4696, 4697 }, { 4698, 4702 }, { 4704, 4745 }, { 4746, 4750 }, { 4752, 4785 }, { 4786, 4790 }, { 4792, 4799 }, { 4800, 4801 }, { 4802, 4806 }, { 4808, 4823 }, { 4824, 4881 }, { 4882, 4886 }, { 4888, 4955 }, { 4992, 5008 }, { 5024, 5109 }, { 5121, 5741 }, { 5743, 5760 }, { 5761, 5787 }, { 5792, 5867 }, { 5888, 5901 }, { 5902, 5906 }, { 5920, 5938 }, { 5952, 5970 }, { 5984, 5997 }, { 5998, 6001 }, { 6016, 6068 }, { 6108, 6109 }, { 6176, 6211 }, { 6212, 6264 }, { 6272, 6313 }, { 6314, 6315 }, { 6320, 6390 }, { 6400, 6429 }, { 6480, 6510 }, { 6512, 6517 }, { 6528, 6572 }, { 6593, 6600 }, { 6656, 6679 }, { 6688, 6741 }, { 6917, 6964 }, { 6981, 6988 }, { 7043, 7073 }, { 7086, 7088 }, { 7104, 7142 }, { 7168, 7204 }, { 7245, 7248 }, { 7258, 7288 }, { 7401, 7405 }, { 7406, 7410 }, { 8501, 8505 }, { 11568, 11622 }, { 11648, 11671 }, { 11680, 11687 }, { 11688, 11695 }, { 11696, 11703 }, { 11704, 11711 }, { 11712, 11719 }, { 11720, 11727 }, { 11728, 11735 }, { 11736, 11743 }, { 12294, 12295 }, { 12348, 12349 }, { 12353, 12439 }, { 12447, 12448 }, { 12449, 12539 }, { 12543, 12544 }, { 12549, 12590 }, { 12593, 12687 }, { 12704, 12731 }, { 12784, 12800 }, { 13312, 19894 }, { 19968, 40908 }, { 40960, 40981 }, { 40982, 42125 }, { 42192, 42232 }, { 42240, 42508 }, { 42512, 42528 }, { 42538, 42540 }, { 42606, 42607 }, { 42656, 42726 }, { 43003, 43010 }, { 43011, 43014 }, { 43015, 43019 }, { 43020, 43043 }, { 43072, 43124 }, { 43138, 43188 }, { 43250, 43256 }, { 43259, 43260 }, { 43274, 43302 }, { 43312, 43335 }, { 43360, 43389 }, { 43396, 43443 }, { 43520, 43561 }, { 43584, 43587 }, { 43588, 43596 }, { 43616, 43632 }, { 43633, 43639 }, { 43642, 43643 }, { 43648, 43696 }, { 43697, 43698 }, { 43701, 43703 }, { 43705, 43710 }, { 43712, 43713 }, { 43714, 43715 }, { 43739, 43741 }, { 43777, 43783 }, { 43785, 43791 }, { 43793, 43799 }, { 43808, 43815 }, { 43816, 43823 }, { 43968, 44003 }, { 44032, 55204 }, { 55216, 55239 }, { 55243, 55292 }, { 63744, 64046 }, { 64048, 64110 }, { 64112, 64218 }, { 64285, 64286 }, { 64287, 64297 }, { 64298, 64311 }, { 64312, 64317 }, { 64318, 64319 }, { 64320, 64322 }, { 64323, 64325 }, { 64326, 64434 }, { 64467, 64830 }, { 64848, 64912 }, { 64914, 64968 }, { 65008, 65020 }, { 65136, 65141 }, { 65142, 65277 }, { 65382, 65392 }, { 65393, 65438 }, { 65440, 65471 }, { 65474, 65480 }, { 65482, 65488 }, { 65490, 65496 }, { 65498, 65501 }, { 65536, 65548 }, { 65549, 65575 }, { 65576, 65595 }, { 65596, 65598 }, { 65599, 65614 }, { 65616, 65630 }, { 65664, 65787 }, { 66176, 66205 }, { 66208, 66257 }, { 66304, 66335 }, { 66352, 66369 }, { 66370, 66378 }, { 66432, 66462 }, { 66464, 66500 }, { 66504, 66512 }, { 66640, 66718 }, { 67584, 67590 }, { 67592, 67593 }, { 67594, 67638 }, { 67639, 67641 }, { 67644, 67645 }, { 67647, 67670 }, { 67840, 67862 }, { 67872, 67898 }, { 68096, 68097 }, { 68112, 68116 }, { 68117, 68120 }, { 68121, 68148 }, { 68192, 68221 }, { 68352, 68406 }, { 68416, 68438 }, { 68448, 68467 }, { 68608, 68681 }, { 69635, 69688 }, { 69763, 69808 }, { 73728, 74607 }, { 77824, 78895 }, { 92160, 92729 }, { 110592, 110594 }, { 131072, 173783 }, { 173824, 177973 }, { 177984, 178206 }, { 194560, 195102 }, { -1, -1 } };
 static unicode::range s_RangePi[] = { { 171, 172 }, { 8216, 8217 }, { 8219, 8221 }, { 8223, 8224 }, { 8249, 8250 }, { 11778, 11779 }, { 11780, 11781 }, { 11785, 11786 }, { 11788, 11789 }, { 11804, 11805 }, { 11808, 11809 }, { -1, -1 } };
 static unicode::range s_RangeMe[] = { { 1160, 1162 }, { 8413, 8417 }, { 8418, 8421 }, { 42608, 42611 }, { -1, -1 } };
 static unicode::range s_RangeLl[] = { { 97, 123 }, { 170, 171 }, { 181, 182 }, { 186, 187 }, { 223, 247 }, { 248, 256 }, { 257, 258 }, { 259, 260 }, { 261, 262 }, { 263, 264 }, { 265, 266 }, { 267, 268 }, { 269, 270 }, { 271, 272 }, { 273, 274 }, { 275, 276 }, { 277, 278 }, { 279, 280 }, { 281, 282 }, { 283, 284 }, { 285, 286 }, { 287, 288 }, { 289, 290 }, { 291, 292 }, { 293, 294 }, { 295, 296 }, { 297, 298 }, { 299, 300 }, { 301, 302 }, { 303, 304 }, { 305, 306 }, { 307, 308 }, { 309, 310 }, { 311, 313 }, { 314, 315 }, { 316, 317 }, { 318, 319 }, { 320, 321 }, { 322, 323 }, { 324, 325 }, { 326, 327 }, { 328, 330 }, { 331, 332 }, { 333, 334 }, { 335, 336 }, { 337, 338 }, { 339, 340 }, { 341, 342 }, { 343, 344 }, { 345, 346 }, { 347, 348 }, { 349, 350 }, { 351, 352 }, { 353, 354 }, { 355, 356 }, { 357, 358 }, { 359, 360 }, { 361, 362 }, { 363, 364 }, { 365, 366 }, { 367, 368 }, { 369, 370 }, { 371, 372 }, { 373, 374 }, { 375, 376 }, { 378, 379 }, { 380, 381 }, { 382, 385 }, { 387, 388 }, { 389, 390 }, { 392, 393 }, { 396, 398 }, { 402, 403 }, { 405, 406 }, { 409, 412 }, { 414, 415 }, { 417, 418 }, { 419, 420 }, { 421, 422 }, { 424, 425 }, { 426, 428 }, { 429, 430 }, { 432, 433 }, { 436, 437 }, { 438, 439 }, { 441, 443 }, { 445, 448 }, { 454, 455 }, { 457, 458 }, { 460, 461 }, { 462, 463 }, { 464, 465 }, { 466, 467 }, { 468, 469 }, { 470, 471 }, { 472, 473 }, { 474, 475 }, { 476, 478 }, { 479, 480 }, { 481, 482 }, { 483, 484 }, { 485, 486 }, { 487, 488 }, { 489, 490 }, { 491, 492 }, { 493, 494 }, { 495, 497 }, { 499, 500 }, { 501, 502 }, { 505, 506 }, { 507, 508 }, { 509, 510 }, { 511, 512 }, { 513, 514 }, { 515, 516 }, { 517, 518 }, { 519, 520 }, { 521, 522 }, { 523, 524 }, { 525, 526 }, { 527, 528 }, { 529, 530 }, { 531, 532 }, { 533, 534 }, { 535, 536 }, { 537, 538 }, { 539, 540 }, { 541, 542 }, { 543, 544 }, { 545, 546 }, { 547, 548 }, { 549, 550 }, { 551, 552 }, { 553, 554 }, { 555, 556 }, { 557, 558 }, { 559, 560 }, { 561, 562 }, { 563, 570 }, { 572, 573 }, { 575, 577 }, { 578, 579 }, { 583, 584 }, { 585, 586 }, { 587, 588 }, { 589, 590 }, { 591, 660 }, { 661, 688 }, { 881, 882 }, { 883, 884 }, { 887, 888 }, { 891, 894 }, { 912, 913 }, { 940, 975 }, { 976, 978 }, { 981, 984 }, { 985, 986 }, { 987, 988 }, { 989, 990 }, { 991, 992 }, { 993, 994 }, { 995, 996 }, { 997, 998 }, { 999, 1000 }, { 1001, 1002 }, { 1003, 1004 }, { 1005, 1006 }, { 1007, 1012 }, { 1013, 1014 }, { 1016, 1017 }, { 1019, 1021 }, { 1072, 1120 }, { 1121, 1122 }, { 1123, 1124 }, { 1125, 1126 }, { 1127, 1128 }, { 1129, 1130 }, { 1131, 1132 }, { 1133, 1134 }, { 1135, 1136 }, { 1137, 1138 }, { 1139, 1140 }, { 1141, 1142 }, { 1143, 1144 }, { 1145, 1146 }, { 1147, 1148 }, { 1149, 1150 }, { 1151, 1152 }, { 1153, 1154 }, { 1163, 1164 }, { 1165, 1166 }, { 1167, 1168 }, { 1169, 1170 }, { 1171, 1172 }, { 1173, 1174 }, { 1175, 1176 }, { 1177, 1178 }, { 1179, 1180 }, { 1181, 1182 }, { 1183, 1184 }, { 1185, 1186 }, { 1187, 1188 }, { 1189, 1190 }, { 1191, 1192 }, { 1193, 1194 }, { 1195, 1196 }, { 1197, 1198 }, { 1199, 1200 }, { 1201, 1202 }, { 1203, 1204 }, { 1205, 1206 }, { 1207, 1208 }, { 1209, 1210 }, { 1211, 1212 }, { 1213, 1214 }, { 1215, 1216 }, { 1218, 1219 }, { 1220, 1221 }, { 1222, 1223 }, { 1224, 1225 }, { 1226, 1227 }, { 1228, 1229 }, { 1230, 1232 }, { 1233, 1234 }, { 1235, 1236 }, { 1237, 1238 }, { 1239, 1240 }, { 1241, 1242 }, { 1243, 1244 }, { 1245, 1246 }, { 1247, 1248 }, { 1249, 1250 }, { 1251, 1252 }, { 1253, 1254 }, { 1255, 1256 }, { 1257, 1258 }, { 1259, 1260 }, { 1261, 1262 }, { 1263, 1264 }, { 1265, 1266 }, { 1267, 1268 }, { 1269, 1270 }, { 1271, 1272 }, { 1273, 1274 }, { 1275, 1276 }, { 1277, 1278 }, { 1279, 1280 }, { 1281, 1282 }, { 1283, 1284 }, { 1285, 1286 }, { 1287, 1288 }, { 1289, 1290 }, { 1291, 1292 }, { 1293, 1294 }, { 1295, 1296 }, { 1297, 1298 }, { 1299, 1300 }, { 1301, 1302 }, { 1303, 1304 }, { 1305, 1306 }, { 1307, 1308 }, { 1309, 1310 }, { 1311, 1312 }, { 1313, 1314 }, { 1315, 1316 }, { 1317, 1318 }, { 1319, 1320 }, { 1377, 1416 }, { 7424, 7468 }, { 7522, 7544 }, { 7545, 7579 }, { 7681, 7682 }, { 7683, 7684 }, { 7685, 7686 }, { 7687, 7688 }, { 7689, 7690 }, { 7691, 7692 }, { 7693, 7694 }, { 7695, 7696 }, { 7697, 7698 }, { 7699, 7700 }, { 7701, 7702 }, { 7703, 7704 }, { 7705, 7706 }, { 7707, 7708 }, { 7709, 7710 }, { 7711, 7712 }, { 7713, 7714 }, { 7715, 7716 }, { 7717, 7718 }, { 7719, 7720 }, { 7721, 7722 }, { 7723, 7724 }, { 7725, 7726 }, { 7727, 7728 }, { 7729, 7730 }, { 7731, 7732 }, { 7733, 7734 }, { 7735, 7736 }, { 7737, 7738 }, { 7739, 7740 }, { 7741, 7742 }, { 7743, 7744 }, { 7745, 7746 }, { 7747, 7748 }, { 7749, 7750 }, { 7751, 7752 }, { 7753, 7754 }, { 7755, 7756 }, { 7757, 7758 }, { 7759, 7760 }, { 7761, 7762 }, { 7763, 7764 }, { 7765, 7766 }, { 7767, 7768 }, { 7769, 7770 }, { 7771, 7772 }, { 7773, 7774 }, { 7775, 7776 }, { 7777, 7778 }, { 7779, 7780 }, { 7781, 7782 }, { 7783, 7784 }, { 7785, 7786 }, { 7787, 7788 }, { 7789, 7790 }, { 7791, 7792 }, { 7793, 7794 }, { 7795, 7796 }, { 7797, 7798 }, { 7799, 7800 }, { 7801, 7802 }, { 7803, 7804 }, { 7805, 7806 }, { 7807, 7808 }, { 7809, 7810 }, { 7811, 7812 }, { 7813, 7814 }, { 7815, 7816 }, { 7817, 7818 }, { 7819, 7820 }, { 7821, 7822 }, { 7823, 7824 }, { 7825, 7826 }, { 7827, 7828 }, { 7829, 7838 }, { 7839, 7840 }, { 7841, 7842 }, { 7843, 7844 }, { 7845, 7846 }, { 7847, 7848 }, { 7849, 7850 }, { 7851, 7852 }, { 7853, 7854 }, { 7855, 7856 }, { 7857, 7858 }, { 7859, 7860 }, { 7861, 7862 }, { 7863, 7864 }, { 7865, 7866 }, { 7867, 7868 }, { 7869, 7870 }, { 7871, 7872 }, { 7873, 7874 }, { 7875, 7876 }, { 7877, 7878 }, { 7879, 7880 }, { 7881, 7882 }, { 7883, 7884 }, { 7885, 7886 }, { 7887, 7888 }, { 7889, 7890 }, { 7891, 7892 }, { 7893, 7894 }, { 7895, 7896 }, { 7897, 7898 }, { 7899, 7900 }, { 7901, 7902 }, { 7903, 7904 }, { 7905, 7906 }, { 7907, 7908 }, { 7909, 7910 }, { 7911, 7912 }, { 7913, 7914 }, { 7915, 7916 }, { 7917, 7918 }, { 7919, 7920 }, { 7921, 7922 }, { 7923, 7924 }, { 7925, 7926 }, { 7927, 7928 }, { 7929, 7930 }, { 7931, 7932 }, { 7933, 7934 }, { 7935, 7944 }, { 7952, 7958 }, { 7968, 7976 }, { 7984, 7992 }, { 8000, 8006 }, { 8016, 8024 }, { 8032, 8040 }, { 8048, 8062 }, { 8064, 8072 }, { 8080, 8088 }, { 8096, 8104 }, { 8112, 8117 }, { 8118, 8120 }, { 8126, 8127 }, { 8130, 8133 }, { 8134, 8136 }, { 8144, 8148 }, { 8150, 8152 }, { 8160, 8168 }, { 8178, 8181 }, { 8182, 8184 }, { 8458, 8459 }, { 8462, 8464 }, { 8467, 8468 }, { 8495, 8496 }, { 8500, 8501 }, { 8505, 8506 }, { 8508, 8510 }, { 8518, 8522 }, { 8526, 8527 }, { 8580, 8581 }, { 11312, 11359 }, { 11361, 11362 }, { 11365, 11367 }, { 11368, 11369 }, { 11370, 11371 }, { 11372, 11373 }, { 11377, 11378 }, { 11379, 11381 }, { 11382, 11389 }, { 11393, 11394 }, { 11395, 11396 }, { 11397, 11398 }, { 11399, 11400 }, { 11401, 11402 }, { 11403, 11404 }, { 11405, 11406 }, { 11407, 11408 }, { 11409, 11410 }, { 11411, 11412 }, { 11413, 11414 }, { 11415, 11416 }, { 11417, 11418 }, { 11419, 11420 }, { 11421, 11422 }, { 11423, 11424 }, { 11425, 11426 }, { 11427, 11428 }, { 11429, 11430 }, { 11431, 11432 }, { 11433, 11434 }, { 11435, 11436 }, { 11437, 11438 }, { 11439, 11440 }, { 11441, 11442 }, { 11443, 11444 }, { 11445, 11446 }, { 11447, 11448 }, { 11449, 11450 }, { 11451, 11452 }, { 11453, 11454 }, { 11455, 11456 }, { 11457, 11458 }, { 11459, 11460 }, { 11461, 11462 }, { 11463, 11464 }, { 11465, 11466 }, { 11467, 11468 }, { 11469, 11470 }, { 11471, 11472 }, { 11473, 11474 }, { 11475, 11476 }, { 11477, 11478 }, { 11479, 11480 }, { 11481, 11482 }, { 11483, 11484 }, { 11485, 11486 }, { 11487, 11488 }, { 11489, 11490 }, { 11491, 11493 }, { 11500, 11501 }, { 11502, 11503 }, { 11520, 11558 }, { 42561, 42562 }, { 42563, 42564 }, { 42565, 42566 }, { 42567, 42568 }, { 42569, 42570 }, { 42571, 42572 }, { 42573, 42574 }, { 42575, 42576 }, { 42577, 42578 }, { 42579, 42580 }, { 42581, 42582 }, { 42583, 42584 }, { 42585, 42586 }, { 42587, 42588 }, { 42589, 42590 }, { 42591, 42592 }, { 42593, 42594 }, { 42595, 42596 }, { 42597, 42598 }, { 42599, 42600 }, { 42601, 42602 }, { 42603, 42604 }, { 42605, 42606 }, { 42625, 42626 }, { 42627, 42628 }, { 42629, 42630 }, { 42631, 42632 }, { 42633, 42634 }, { 42635, 42636 }, { 42637, 42638 }, { 42639, 42640 }, { 42641, 42642 }, { 42643, 42644 }, { 42645, 42646 }, { 42647, 42648 }, { 42787, 42788 }, { 42789, 42790 }, { 42791, 42792 }, { 42793, 42794 }, { 42795, 42796 }, { 42797, 42798 }, { 42799, 42802 }, { 42803, 42804 }, { 42805, 42806 }, { 42807, 42808 }, { 42809, 42810 }, { 42811, 42812 }, { 42813, 42814 }, { 42815, 42816 }, { 42817, 42818 }, { 42819, 42820 }, { 42821, 42822 }, { 42823, 42824 }, { 42825, 42826 }, { 42827, 42828 }, { 42829, 42830 }, { 42831, 42832 }, { 42833, 42834 }, { 42835, 42836 }, { 42837, 42838 }, { 42839, 42840 }, { 42841, 42842 }, { 42843, 42844 }, { 42845, 42846 }, { 42847, 42848 }, { 42849, 42850 }, { 42851, 42852 }, { 42853, 42854 }, { 42855, 42856 }, { 42857, 42858 }, { 42859, 42860 }, { 42861, 42862 }, { 42863, 42864 }, { 42865, 42873 }, { 42874, 42875 }, { 42876, 42877 }, { 42879, 42880 }, { 42881, 42882 }, { 42883, 42884 }, { 42885, 42886 }, { 42887, 42888 }, { 42892, 42893 }, { 42894, 42895 }, { 42897, 42898 }, { 42913, 42914 }, { 42915, 42916 }, { 42917, 42918 }, { 42919, 42920 }, { 42921, 42922 }, { 43002, 43003 }, { 64256, 64263 }, { 64275, 64280 }, { 65345, 65371 }, { 66600, 66640 }, { 119834, 119860 }, { 119886, 119893 }, { 119894, 119912 }, { 119938, 119964 }, { 119990, 119994 }, { 119995, 119996 }, { 119997, 120004 }, { 120005, 120016 }, { 120042, 120068 }, { 120094, 120120 }, { 120146, 120172 }, { 120198, 120224 }, { 120250, 120276 }, { 120302, 120328 }, { 120354, 120380 }, { 120406, 120432 }, { 120458, 120486 }, { 120514, 120539 }, { 120540, 120546 }, { 120572, 120597 }, { 120598, 120604 }, { 120630, 120655 }, { 120656, 120662 }, { 120688, 120713 }, { 120714, 120720 }, { 120746, 120771 }, { 120772, 120778 }, { 120779, 120780 }, { -1, -1 } };
-- 
2.43.0


From fba6fbe7df39c259b93e5883b66e853ee08913c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:10 +0000
Subject: [PATCH 29/59] fix: copied test blocks get their position from the top
 level block, test_block.cpp is as it was

---
 TameParse/Language/test_block.cpp     | 3 ---
 TameParse/Language/toplevel_block.cpp | 3 +++
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/TameParse/Language/test_block.cpp b/TameParse/Language/test_block.cpp
index 6b4c1a4..733cfcb 100644
--- a/TameParse/Language/test_block.cpp
+++ b/TameParse/Language/test_block.cpp
@@ -58,9 +58,6 @@ test_block& test_block::operator=(const test_block& assignFrom) {
     for (test_block::iterator defn = assignFrom.begin(); defn != assignFrom.end(); ++defn) {
         m_TestDefinitions.push_back(new test_definition(**defn));
     }
-
-    set_start_pos(assignFrom.start_pos());
-    set_end_pos(assignFrom.end_pos());
     
     return *this;
 }
diff --git a/TameParse/Language/toplevel_block.cpp b/TameParse/Language/toplevel_block.cpp
index dd79f8d..8885d14 100644
--- a/TameParse/Language/toplevel_block.cpp
+++ b/TameParse/Language/toplevel_block.cpp
@@ -119,6 +119,9 @@ toplevel_block& toplevel_block::operator=(const toplevel_block& copyFrom) {
     if (copyFrom.parser())      m_ParserBlock   = new parser_block(*copyFrom.parser());
     if (copyFrom.test())        m_TestBlock     = new test_block(*copyFrom.test());
     
+    // The copy constructor of a test block leaves out its position
+    if (m_TestBlock)            static_cast<block&>(*m_TestBlock) = *copyFrom.test();
+    
     // That was tedious
     return *this;
 }
-- 
2.43.0


From f892542d2f14afca9e616067542c71a96519b523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:13 +0000
Subject: [PATCH 30/59] fix: >= and <= of containers compare with the other
 container

---
 TameParse/Util/container.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TameParse/Util/container.h b/TameParse/Util/container.h
index 01829af..77c4a3b 100644
--- a/TameParse/Util/container.h
+++ b/TameParse/Util/container.h
@@ -153,12 +153,12 @@ namespace util {
         
         /// \brief Ordering operator
         inline bool operator>=(const container& compareTo) const {
-            return !operator<(*this);
+            return !operator<(compareTo);
         }
         
         /// \brief Ordering operator
         inline bool operator<=(const container& compareTo) const {
-            return !operator>(*this);
+            return !operator>(compareTo);
         }
         
         /// \brief Comparison operator
-- 
2.43.0


From 46a0070bfaf5399c549289c99acb2942929ad6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:09 +0000
Subject: [PATCH 31/59] fix: assigning a shared pointer from inside the object
 it refers to read memory that was freed

---
 TameParse/Util/container.h  |  5 ++++-
 TameParse/Util/syntax_ptr.h | 18 +++++++++---------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/TameParse/Util/container.h b/TameParse/Util/container.h
index 77c4a3b..c9d1e67 100644
--- a/TameParse/Util/container.h
+++ b/TameParse/Util/container.h
@@ -229,9 +229,12 @@ namespace util {
         inline container<ItemType, ItemAllocator>& operator=(const container<ItemType, ItemAllocator>& assignFrom) {
             if (&assignFrom == this) return *this;
             
+            // Releasing the old reference might destroy the object that contains assignFrom, so this must be done last
+            reference* oldRef = m_Ref;
+            
             assignFrom.m_Ref->retain();
-            m_Ref->release();
             m_Ref = assignFrom.m_Ref;
+            oldRef->release();
 
             return *this;
         }
diff --git a/TameParse/Util/syntax_ptr.h b/TameParse/Util/syntax_ptr.h
index c237bb7..9d27488 100644
--- a/TameParse/Util/syntax_ptr.h
+++ b/TameParse/Util/syntax_ptr.h
@@ -102,19 +102,19 @@ namespace util {
             // Nothing to do if the reference is the same
             if (m_Reference == assignFrom.m_Reference) return *this;
             
-            // Deallocate the reference
-            m_Reference->usageCount--;
-            if (m_Reference->usageCount <= 0) {
-                delete (ptr_type*) m_Reference->value;
-                m_Reference->value = NULL;
-                delete m_Reference;
-            }
-            m_Reference = NULL;
-            
             // Switch to the reference in the other object
+            syntax_ptr_reference* oldReference = m_Reference;
             m_Reference = assignFrom.m_Reference;
             ++m_Reference->usageCount;
             
+            // Deallocate the old reference (this must be done last, as the object that's destroyed might contain assignFrom)
+            oldReference->usageCount--;
+            if (oldReference->usageCount <= 0) {
+                delete (ptr_type*) oldReference->value;
+                oldReference->value = NULL;
+                delete oldReference;
+            }
+            
             return *this;
         }
         
-- 
2.43.0


From 14c6347a7617d1806d9c22821b194505516ff9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:22 +0000
Subject: [PATCH 32/59] fix: tree nodes of tokens have no rule, and the order
 of tree nodes is consistent

---
 TameParse/Util/astnode.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/TameParse/Util/astnode.cpp b/TameParse/Util/astnode.cpp
index 6408be1..1b07602 100644
--- a/TameParse/Util/astnode.cpp
+++ b/TameParse/Util/astnode.cpp
@@ -48,6 +48,7 @@ astnode::astnode(int itemIdentifier, int rule)
 /// \brief Creates an AST node from a lexeme
 astnode::astnode(const dfa::lexeme_container& terminal)
 : m_ItemIdentifier(-1)
+, m_Rule(-1)
 , m_Lexeme(terminal) {
 }
 
@@ -64,8 +65,11 @@ astnode* astnode::clone() const {
 bool astnode::operator<(const astnode& compareTo) const {
     if (&compareTo == this) return false;
     
-    if (m_ItemIdentifier < compareTo.m_ItemIdentifier || m_Lexeme < compareTo.m_Lexeme) return true;
-    if (compareTo.m_ItemIdentifier < m_ItemIdentifier || compareTo.m_Lexeme < m_Lexeme) return false;
+    if (m_ItemIdentifier < compareTo.m_ItemIdentifier) return true;
+    if (compareTo.m_ItemIdentifier < m_ItemIdentifier) return false;
+    
+    if (m_Lexeme < compareTo.m_Lexeme) return true;
+    if (compareTo.m_Lexeme < m_Lexeme) return false;
     
     if (children().size() < compareTo.children().size()) return true;
     if (children().size() > compareTo.children().size()) return false;
-- 
2.43.0


From 22245a64320de8a5e5c49c3b4aab31d72e8edfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:18 +0000
Subject: [PATCH 33/59] fix: sets of the same items are equal, whatever has
 been removed from them

---
 TameParse/ContextFree/item_set.h | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/TameParse/ContextFree/item_set.h b/TameParse/ContextFree/item_set.h
index d912abf..f53ccfb 100644
--- a/TameParse/ContextFree/item_set.h
+++ b/TameParse/ContextFree/item_set.h
@@ -86,6 +86,13 @@ namespace contextfree {
         /// \brief Recalculates the size (number of items) in this object
         void count_size();
         
+        /// \brief The number of entries in m_Items up to the last one that isn't 0 (removing items can leave unused entries at the end)
+        inline int used_items() const {
+            int result = m_MaxItem;
+            while (result > 0 && m_Items[result-1] == 0) --result;
+            return result;
+        }
+        
     public:
         /// \brief Adds the item with the specified identifier to this item.
         ///
@@ -126,11 +133,12 @@ namespace contextfree {
     public:
         /// \brief Returns true if this item set is equal to another
         inline bool operator==(const item_set& compareTo) const {
-            // Compare the m_MaxItem first
-            if (compareTo.m_MaxItem != m_MaxItem) return false;
+            // Compare the sizes first
+            int numUsed = used_items();
+            if (compareTo.used_items() != numUsed) return false;
 
             // Compare the elements
-            for (int item = 0; item < m_MaxItem; ++item) {
+            for (int item = 0; item < numUsed; ++item) {
                 if (m_Items[item] != compareTo.m_Items[item]) return false;
             }
 
@@ -143,12 +151,14 @@ namespace contextfree {
 
         /// \brief Orders this set relative to another
         inline bool operator<(const item_set& compareTo) const {
-            // Compare the m_MaxItem first
-            if (m_MaxItem < compareTo.m_MaxItem) return true;
-            if (compareTo.m_MaxItem < m_MaxItem) return false;
+            // Compare the sizes first
+            int numUsed     = used_items();
+            int theirUsed   = compareTo.used_items();
+            if (numUsed < theirUsed) return true;
+            if (theirUsed < numUsed) return false;
 
             // Compare the elements
-            for (int item = 0; item < m_MaxItem; ++item) {
+            for (int item = 0; item < numUsed; ++item) {
                 if (m_Items[item] < compareTo.m_Items[item]) return true;
                 if (m_Items[item] > compareTo.m_Items[item]) return false;
             }
-- 
2.43.0


From ed11fffd59a1c9490b2063b96f90f4b7b69da7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:24 +0000
Subject: [PATCH 34/59] fix: copying a grammar freed its sets twice, clearing
 its caches leaked them

---
 TameParse/ContextFree/grammar.cpp | 20 ++++++++++++++------
 TameParse/ContextFree/grammar.h   |  3 +++
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/TameParse/ContextFree/grammar.cpp b/TameParse/ContextFree/grammar.cpp
index c9e9225..a8aa1b3 100644
--- a/TameParse/ContextFree/grammar.cpp
+++ b/TameParse/ContextFree/grammar.cpp
@@ -46,15 +46,21 @@ grammar::grammar() {
     m_EpsilonSet->insert(an_empty_item_c);
 }
 
+/// \brief Creates a copy of a grammar
+grammar::grammar(const grammar& copyFrom) {
+    m_EpsilonSet = new item_set(this);
+    m_EpsilonSet->insert(an_empty_item_c);
+    
+    (*this) = copyFrom;
+}
+
 /// \brief Destroys a grammar
 grammar::~grammar() {
     // Finished with the epsilon set
     delete m_EpsilonSet;
     
     // Finished with the list of cached item sets
-    for (lr1_item_set_cache::iterator oldItemSets = m_CachedItemSets.begin(); oldItemSets != m_CachedItemSets.end(); ++oldItemSets) {
-        delete oldItemSets->second;
-    }
+    clear_caches();
 }
 
 /// \brief Assignment
@@ -74,9 +80,7 @@ grammar& grammar::operator=(const grammar& assignFrom) {
     m_RuleForIdentifier = assignFrom.m_RuleForIdentifier;
     
     // Clear the caches for this object
-    m_CachedFirstSets.clear();
-    m_CachedFollowSets.clear();
-    m_CachedItemSets.clear();
+    clear_caches();
     
     // Finished
     return *this;
@@ -209,6 +213,10 @@ const item_container& grammar::item_with_identifier(int id) const {
 void grammar::clear_caches() const {
     m_CachedFirstSets.clear();
     m_CachedFollowSets.clear();
+    
+    for (lr1_item_set_cache::iterator oldItemSets = m_CachedItemSets.begin(); oldItemSets != m_CachedItemSets.end(); ++oldItemSets) {
+        delete oldItemSets->second;
+    }
     m_CachedItemSets.clear();
 }
 
diff --git a/TameParse/ContextFree/grammar.h b/TameParse/ContextFree/grammar.h
index bfc3f59..1bede30 100644
--- a/TameParse/ContextFree/grammar.h
+++ b/TameParse/ContextFree/grammar.h
@@ -120,6 +120,9 @@ namespace contextfree {
         /// \brief Creates an empty grammar
         grammar();
         
+        /// \brief Copy constructor
+        grammar(const grammar& copyFrom);
+        
         /// \brief Destructor
         ~grammar();
         
-- 
2.43.0


From 9c4a0241a9b23550334df25571dbb50499c757c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:02 +0000
Subject: [PATCH 35/59] fix: the identifier cached by a rule is not used after
 the rule or the grammar has changed

---
 TameParse/ContextFree/grammar.cpp | 13 ++++++++++--
 TameParse/ContextFree/grammar.h   | 12 +++++++++++
 TameParse/ContextFree/rule.cpp    | 34 +++++++++++++++++--------------
 TameParse/ContextFree/rule.h      |  4 ++--
 4 files changed, 44 insertions(+), 19 deletions(-)

diff --git a/TameParse/ContextFree/grammar.cpp b/TameParse/ContextFree/grammar.cpp
index a8aa1b3..7906712 100644
--- a/TameParse/ContextFree/grammar.cpp
+++ b/TameParse/ContextFree/grammar.cpp
@@ -40,14 +40,22 @@ static empty_item an_empty_item;
 // An item container with an empty item in it
 static item_container an_empty_item_c(&an_empty_item, false);
 
+/// \brief Generates a new value for m_IdentifierSet
+int grammar::next_identifier_set() {
+    static int lastIdentifierSet = 0;
+    return ++lastIdentifierSet;
+}
+
 /// \brief Creates an empty grammar
-grammar::grammar() {
+grammar::grammar()
+: m_IdentifierSet(next_identifier_set()) {
     m_EpsilonSet = new item_set(this);
     m_EpsilonSet->insert(an_empty_item_c);
 }
 
 /// \brief Creates a copy of a grammar
-grammar::grammar(const grammar& copyFrom) {
+grammar::grammar(const grammar& copyFrom)
+: m_IdentifierSet(next_identifier_set()) {
     m_EpsilonSet = new item_set(this);
     m_EpsilonSet->insert(an_empty_item_c);
     
@@ -74,6 +82,7 @@ grammar& grammar::operator=(const grammar& assignFrom) {
     m_NonterminalToName = assignFrom.m_NonterminalToName;
 
     // Preserve the item and rule identifiers
+    m_IdentifierSet     = next_identifier_set();
     m_ItemIdentifiers   = assignFrom.m_ItemIdentifiers;
     m_ItemForIdentifier = assignFrom.m_ItemForIdentifier;
     m_RuleIdentifiers   = assignFrom.m_RuleIdentifiers;
diff --git a/TameParse/ContextFree/grammar.h b/TameParse/ContextFree/grammar.h
index 1bede30..f930bf1 100644
--- a/TameParse/ContextFree/grammar.h
+++ b/TameParse/ContextFree/grammar.h
@@ -115,6 +115,12 @@ namespace contextfree {
         
         /// \brief Item set containing 'epsilon', representing an empty first or follow set
         item_set* m_EpsilonSet;
+        
+        /// \brief Distinguishes the identifiers assigned by this grammar from those of any other
+        int m_IdentifierSet;
+        
+        /// \brief Generates a new value for m_IdentifierSet
+        static int next_identifier_set();
 
     public:
         /// \brief Creates an empty grammar
@@ -168,6 +174,12 @@ namespace contextfree {
         /// grammar (including the implicit ones that were generated from EBNF items)
         inline int max_rule_identifier() const { return (int) m_RuleIdentifiers.size(); }
         
+        /// \brief Number that indicates the set of identifiers used by this grammar
+        ///
+        /// This is different for every grammar and changes when a grammar is assigned, so an identifier can be cached for
+        /// as long as this has the same value.
+        inline int identifier_set() const { return m_IdentifierSet; }
+        
         /// \brief Returns an identifier given a rule. Identifiers are numbered from 0.
         int identifier_for_rule(const rule_container& rule) const;
         
diff --git a/TameParse/ContextFree/rule.cpp b/TameParse/ContextFree/rule.cpp
index 24f0afc..e12c849 100644
--- a/TameParse/ContextFree/rule.cpp
+++ b/TameParse/ContextFree/rule.cpp
@@ -33,7 +33,7 @@ using namespace contextfree;
 /// \brief Creates a rule (with the empty nonterminal)
 rule::rule() 
 : m_NonTerminal(new empty_item(), true)
-, m_LastGrammar(NULL) {
+, m_LastIdentifierSet(0) {
 }
 
 /// \brief Creates a copy of a rule
@@ -41,7 +41,7 @@ rule::rule(const rule& copyFrom)
 : m_NonTerminal(copyFrom.m_NonTerminal)
 , m_Items(copyFrom.m_Items)
 , m_ItemKeys(copyFrom.m_ItemKeys)
-, m_LastGrammar(NULL) {
+, m_LastIdentifierSet(0) {
 }
 
 /// \brief Creates a copy of a rule with an alternative nonterminal
@@ -49,19 +49,19 @@ rule::rule(const rule& copyFrom, const item_container& nonTerminal)
 : m_NonTerminal(nonTerminal)
 , m_Items(copyFrom.m_Items)
 , m_ItemKeys(copyFrom.m_ItemKeys)
-, m_LastGrammar(NULL) {
+, m_LastIdentifierSet(0) {
 }
 
 /// \brief Creates an empty rule, which reduces to the specified item
 rule::rule(const item_container& nonTerminal)
 : m_NonTerminal(nonTerminal)
-, m_LastGrammar(NULL) {
+, m_LastIdentifierSet(0) {
 }
 
 /// \brief Creates an empty rule with a nonterminal identifier
 rule::rule(const int newNt)
 : m_NonTerminal(new contextfree::nonterminal(newNt), true)
-, m_LastGrammar(NULL) {
+, m_LastIdentifierSet(0) {
 }
 
 /// \brief Copies the content of a rule into this one
@@ -69,7 +69,7 @@ rule& rule::operator=(const rule& copyFrom) {
     m_NonTerminal   = copyFrom.m_NonTerminal;
     m_Items         = copyFrom.m_Items;
     m_ItemKeys      = copyFrom.m_ItemKeys;
-    m_LastGrammar   = NULL;
+    m_LastIdentifierSet = 0;
     
     return *this;
 }
@@ -139,6 +139,9 @@ rule& rule::operator<<(const item_container& item) {
     m_Items.push_back(item);
     m_ItemKeys.push_back(0);
     
+    // This is a different rule now, so it has a different identifier
+    m_LastIdentifierSet = 0;
+    
     return *this;
 }
 
@@ -149,20 +152,21 @@ rule& rule::operator<<(const rule& rule) {
         m_Items.push_back(*sym);
         m_ItemKeys.push_back(rule.get_key(sym));
     }
+    
+    // This is a different rule now, so it has a different identifier
+    m_LastIdentifierSet = 0;
+    
     return *this;
 }
 
 /// \brief Returns the identifier for this rule in the specified grammar
 int rule::identifier(const grammar& gram) const {
-    // DANGER WILL ROBINSON:
-    //   If a grammar is freed, then a new grammar created and this rule put into it, there is a non-zero chance
-    //   of m_LastGrammar being wrong!
-    //
-    //   OK for now. Rules are usually one-shot affairs.
-    if (&gram == m_LastGrammar) return m_Identifier;
-    
-    m_LastGrammar = &gram;
-    return m_Identifier = gram.identifier_for_rule(*this);
+    // Use the cached identifier if it's for this grammar
+    if (gram.identifier_set() == m_LastIdentifierSet) return m_Identifier;
+    
+    m_Identifier        = gram.identifier_for_rule(*this);
+    m_LastIdentifierSet = gram.identifier_set();
+    return m_Identifier;
 }
 
 /// \brief Retrieves the key associated with the item at the specified index
diff --git a/TameParse/ContextFree/rule.h b/TameParse/ContextFree/rule.h
index 3672605..9380f7b 100644
--- a/TameParse/ContextFree/rule.h
+++ b/TameParse/ContextFree/rule.h
@@ -72,8 +72,8 @@ namespace contextfree {
         std::vector<int> m_ItemKeys;
         
     private:
-        /// \brief The last grammar that identifier() was called for (or NULL)
-        mutable const grammar* m_LastGrammar;
+        /// \brief The identifier_set() of the last grammar that identifier() was called for (or 0)
+        mutable int m_LastIdentifierSet;
         
         /// \brief The identifier that was supplied to this rule in the specified grammar
         ///
-- 
2.43.0


From edb3ef558ece3f3d9be6505d50c8615be4624dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:53 +0000
Subject: [PATCH 36/59] fix: the rules added to an alternative were never freed

---
 TameParse/ContextFree/ebnf_items.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TameParse/ContextFree/ebnf_items.cpp b/TameParse/ContextFree/ebnf_items.cpp
index b98b529..bdd12e6 100644
--- a/TameParse/ContextFree/ebnf_items.cpp
+++ b/TameParse/ContextFree/ebnf_items.cpp
@@ -87,7 +87,7 @@ ebnf::~ebnf() {
 void ebnf::add_rule(const rule& newRule) {
     item_container ourselves(this, false);
 
-    m_Rules->push_back(new rule(newRule, ourselves));
+    m_Rules->push_back(rule_container(new rule(newRule, ourselves), true));
 }
 
 /// \brief Compares this item to another. Returns true if they are the same
-- 
2.43.0


From fa1be37dcc8896eeed680983e0ee07867040465f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:05 +0000
Subject: [PATCH 37/59] fix: a replaced lexer symbol is weak or ignored only if
 its new definition is

---
 TameParse/Compiler/language_stage.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/TameParse/Compiler/language_stage.cpp b/TameParse/Compiler/language_stage.cpp
index f5e445c..0524d57 100644
--- a/TameParse/Compiler/language_stage.cpp
+++ b/TameParse/Compiler/language_stage.cpp
@@ -274,6 +274,12 @@ void language_stage::compile() {
                                 // Clear the existing symbol
                                 m_TerminalDefinition.erase(symId);
                                 m_Lexer.remove_definition((*lexerItem)->identifier());
+                                
+                                // The symbol might have been weak or ignored: the new definition decides if it still is
+                                m_WeakSymbols.erase(symId);
+                                m_IgnoredSymbols.erase(symId);
+                                m_UsedIgnoredSymbols.erase(symId);
+                                m_UnusedSymbols.erase(symId);
                             }
                         }
                     } else {
-- 
2.43.0


From 3ddf6971cb019e80c609f65711e3d5b61af0f715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:43 +0000
Subject: [PATCH 38/59] fix: undefined nonterminals are reported in the file
 where they are used, not that of a derived language

---
 TameParse/Compiler/language_stage.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/TameParse/Compiler/language_stage.cpp b/TameParse/Compiler/language_stage.cpp
index 0524d57..c13b51a 100644
--- a/TameParse/Compiler/language_stage.cpp
+++ b/TameParse/Compiler/language_stage.cpp
@@ -499,13 +499,14 @@ void language_stage::compile() {
         if (m_Grammar.rules_for_nonterminal(nonterminalId).size() == 0) {
             // Find the place where this nonterminal was first used
             block*          firstUsage  = m_FirstNonterminalUsage[nonterminalId].first;
+            const wstring*  usageFile   = m_FirstNonterminalUsage[nonterminalId].second;
             position        usagePos    = firstUsage?firstUsage->start_pos():position(-1, -1, -1);
             
             // Generate the message
             wstringstream   msg;
             msg << L"Undefined nonterminal: " << formatter::to_string(*ntItem, m_Grammar, m_Terminals);
             
-            cons().report_error(error(error::sev_error, filename(), L"UNDEFINED_NONTERMINAL", msg.str(), usagePos));
+            cons().report_error(error(error::sev_error, usageFile?*usageFile:filename(), L"UNDEFINED_NONTERMINAL", msg.str(), usagePos));
         }
     }
 
-- 
2.43.0


From c3ae57ebda3cd309d09f097598dd4b8f7fbd2c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:45 +0000
Subject: [PATCH 39/59] fix: the original of a language that is defined twice
 is reported with the name of its file as it was given

---
 TameParse/Compiler/import_stage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TameParse/Compiler/import_stage.cpp b/TameParse/Compiler/import_stage.cpp
index 66586df..462439f 100644
--- a/TameParse/Compiler/import_stage.cpp
+++ b/TameParse/Compiler/import_stage.cpp
@@ -113,7 +113,7 @@ void import_stage::compile() {
                     cons().report_error(error(error::sev_error, m_ShortNameForFile[nextFile.first], L"AMBIGUOUS_LANGUAGE_DEFINITION", msg.str(), (*defn)->start_pos()));
                     
                     // Report some detail
-                    cons().report_error(error(error::sev_detail, m_LanguageFile[name], L"AMBIGUOUS_LANGUAGE_ORIGINAL", L"First encountered here", m_LanguageBlock[name]->start_pos()));
+                    cons().report_error(error(error::sev_detail, file_with_language(name), L"AMBIGUOUS_LANGUAGE_ORIGINAL", L"First encountered here", m_LanguageBlock[name]->start_pos()));
                 } else {
                     // Store information about this language
                     m_LanguageFile[name]    = nextFile.first;
-- 
2.43.0


From 41b5d7db6a323f22c7f4256986bef0919dd29e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:02 +0000
Subject: [PATCH 40/59] fix: languages that inherit from themselves are an
 error instead of a stack overflow

---
 TameParse/Compiler/language_stage.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/TameParse/Compiler/language_stage.cpp b/TameParse/Compiler/language_stage.cpp
index c13b51a..d33babb 100644
--- a/TameParse/Compiler/language_stage.cpp
+++ b/TameParse/Compiler/language_stage.cpp
@@ -95,11 +95,25 @@ void language_stage::compile() {
         const wstring& inheritFrom = m_Language->inherits().front();
 
         // Fetch the language from the importer
-        // TODO: inheritance loops should produce an error (other than a stack overflow)
         const language_block* inheritBlock = m_Import->language_with_name(inheritFrom);
 
+        // Check that the languages that this inherits from don't inherit from each other (or from this language)
+        bool            isLoop = false;
+        set<wstring>    ancestors;
+        ancestors.insert(m_Language->identifier());
+        
+        const language_block* ancestor = inheritBlock;
+        while (ancestor && !isLoop) {
+            isLoop      = !ancestors.insert(ancestor->identifier()).second;
+            ancestor    = ancestor->inherits().empty()?NULL:m_Import->language_with_name(ancestor->inherits().front());
+        }
+
         // Report an error if the language is not defined
-        if (!inheritBlock) {
+        if (isLoop) {
+            wstringstream msg;
+            msg << L"Language inherits from itself: '" << inheritFrom << "'";
+            cons().report_error(error(error::sev_error, filename(), L"INHERITANCE_LOOP", msg.str(), m_Language->start_pos()));
+        } else if (!inheritBlock) {
             wstringstream msg;
             msg << L"Unable to find language '" << inheritFrom << "'";
             cons().report_error(error(error::sev_error, filename(), L"CANT_FIND_LANGUAGE", msg.str(), m_Language->start_pos()));
-- 
2.43.0


From b8b814baa230de127f3b12055efaa2233cf738e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:32 +0000
Subject: [PATCH 41/59] fix: generated lexers have a row for every state and an
 end for the last one

---
 TameParse/Compiler/OutputStages/cplusplus.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/TameParse/Compiler/OutputStages/cplusplus.cpp b/TameParse/Compiler/OutputStages/cplusplus.cpp
index 9989f48..c00587d 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.cpp
+++ b/TameParse/Compiler/OutputStages/cplusplus.cpp
@@ -519,15 +519,17 @@ void output_cplusplus::source_lexer_state_machine() {
     // Finish off the table
     *m_SourceFile << "\n    };\n";
 
-    // Add a final state to point to the end of the array
-    stateToEntryOffset.push_back(entryPos);
+    // Add the states following the last one with any transitions, and a final state to point to the end of the array
+    while ((int)stateToEntryOffset.size() <= count_lexer_states()) {
+        stateToEntryOffset.push_back(entryPos);
+    }
 
     // Write out the rows table
-    *m_SourceFile << "\nstatic const dfa::state_machine_compact_table<false>::entry* s_LexerStates[" << stateToEntryOffset.size()-1 << "] = {\n        ";
+    *m_SourceFile << "\nstatic const dfa::state_machine_compact_table<false>::entry* s_LexerStates[" << stateToEntryOffset.size() << "] = {\n        ";
 
     // Write the actual rows
     bool first = true;
-    for (vector<int>::iterator offset = stateToEntryOffset.begin(); offset != stateToEntryOffset.end()-1; ++offset) {
+    for (vector<int>::iterator offset = stateToEntryOffset.begin(); offset != stateToEntryOffset.end(); ++offset) {
         // Commas between entries
         if (!first) *m_SourceFile << ", ";
 
-- 
2.43.0


From 063bd83c86f3eaa7ca255b4afffb738f43af2018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:12 +0000
Subject: [PATCH 42/59] fix: generated lists starting or ending with another
 list are at the position of that list

---
 TameParse/Compiler/OutputStages/cplusplus.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/TameParse/Compiler/OutputStages/cplusplus.cpp b/TameParse/Compiler/OutputStages/cplusplus.cpp
index c00587d..39b55bf 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.cpp
+++ b/TameParse/Compiler/OutputStages/cplusplus.cpp
@@ -1354,9 +1354,7 @@ void output_cplusplus::source_ast_position_functions() {
                 if (ruleItem->item->type() == item::guard) continue;
 
                 // Neither does the 'repeat' item of a * or + closure
-                if (repeatingItem && ruleItem->item->type() == nonterm->item->type() && ruleItem->item->symbol() == nonterm->item->symbol()) {
-                    continue;
-                }
+                if (ruleItem->isEbnfRepetition) continue;
 
                 // This item has a variable, so we can return its first position as the position of this item
                 foundValid = true;
@@ -1396,9 +1394,7 @@ void output_cplusplus::source_ast_position_functions() {
                 if (ruleItem->item->type() == item::guard) continue;
 
                 // Neither does the 'repeat' item of a * or + closure
-                if (repeatingItem && ruleItem->item->type() == nonterm->item->type() && ruleItem->item->symbol() == nonterm->item->symbol()) {
-                    continue;
-                }
+                if (ruleItem->isEbnfRepetition) continue;
 
                 // This item has a variable, so we can return its final position as the position of this item
                 foundValid = true;
-- 
2.43.0


From 958fe823728996359b45110e5fccc4dab0c835a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:39 +0000
Subject: [PATCH 43/59] fix: generated constructors for rules that only differ
 in their guards are distinct

---
 TameParse/Compiler/OutputStages/cplusplus.cpp | 56 +++++++++++++++++--
 TameParse/Compiler/OutputStages/cplusplus.h   |  5 ++
 2 files changed, 57 insertions(+), 4 deletions(-)

diff --git a/TameParse/Compiler/OutputStages/cplusplus.cpp b/TameParse/Compiler/OutputStages/cplusplus.cpp
index 39b55bf..531bf45 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.cpp
+++ b/TameParse/Compiler/OutputStages/cplusplus.cpp
@@ -211,6 +211,36 @@ std::string output_cplusplus::class_name_for_item(const contextfree::item_contai
     }
 }
 
+/// \brief The number of rules before the specified rule whose items have the same types
+///
+/// Guards and EBNF repetitions have no representation in the AST, so these aren't considered here.
+int output_cplusplus::constructor_variant(const ast_nonterminal& nonterminal, int ruleId) {
+    // Get the types of the items in each of the rules up until this one
+    map<vector<string>, int> variants;
+    int                      result = 0;
+
+    for (ast_nonterminal_rules::const_iterator ruleDefn = nonterminal.rules.begin(); ruleDefn != nonterminal.rules.end(); ++ruleDefn) {
+        vector<string>  types;
+        bool            isRepetition = false;
+
+        for (ast_rule_item_list::const_iterator ruleItem = ruleDefn->second.begin(); ruleItem != ruleDefn->second.end(); ++ruleItem) {
+            if (ruleItem->isEbnfRepetition) isRepetition = true;
+            if (ruleItem->isEbnfRepetition || ruleItem->item->type() == item::guard) continue;
+            types.push_back(class_name_for_item(ruleItem->item));
+        }
+
+        // The repeating rule of a closure uses the same constructor as the initial rule
+        if (isRepetition) continue;
+
+        // Count this variant
+        result = variants[types]++;
+        if (ruleDefn->first == ruleId) return result;
+    }
+
+    // This is a repeating rule, which doesn't have a constructor of its own
+    return 0;
+}
+
 /// \brief Returns true if the specified name should be considered 'valid'
 bool output_cplusplus::name_is_valid(const std::wstring& name) {
     // Empty names are invalid
@@ -1030,6 +1060,9 @@ void output_cplusplus::header_ast_class_declarations() {
         // The names of the variables that are defined for this rule
         set<string> definedVariables;
 
+        // True once the position field has been declared
+        bool definedPosition = false;
+
         // Iterate through the rules
         for (ast_nonterminal_rules::const_iterator ruleDefn = ntDefn.rules.begin(); ruleDefn != ntDefn.rules.end(); ++ruleDefn) {
             int ruleIdentifier = ruleDefn->first;
@@ -1072,10 +1105,10 @@ void output_cplusplus::header_ast_class_declarations() {
                 }
             }
 
-            // If there are no valid items then we need to declare a position field
-            if (!validItems) {
-                // Presumably there's only one of these
-                *m_HeaderFile << "        dfa::position m_Position;";
+            // If there are no valid items then we need to declare a position field (once: it's shared by all of the rules without any items)
+            if (!validItems && !definedPosition) {
+                *m_HeaderFile << "        dfa::position m_Position;\n";
+                definedPosition = true;
             }
 
             // Declare the constructor for this rule if necessary
@@ -1136,6 +1169,11 @@ void output_cplusplus::header_ast_class_declarations() {
                     *m_HeaderFile << "const dfa::position& pos";
                 }
 
+                // Rules with the same items have constructors that are distinguished by some extra parameters
+                for (int variant = constructor_variant(ntDefn, ruleIdentifier); variant > 0; --variant) {
+                    *m_HeaderFile << ", int";
+                }
+
                 *m_HeaderFile << ");\n";
             }
         }
@@ -1271,6 +1309,11 @@ void output_cplusplus::source_ast_class_constructors() {
                 *m_SourceFile << "const dfa::position& pos";
             }
 
+            // Rules with the same items have constructors that are distinguished by some extra parameters
+            for (int variant = constructor_variant(ntDefn, ruleDefn->first); variant > 0; --variant) {
+                *m_SourceFile << ", int";
+            }
+
             *m_SourceFile << ")\n";
 
             // Write out the initializers
@@ -1610,6 +1653,11 @@ void output_cplusplus::source_reduce_actions() {
                     *m_SourceFile << "lookaheadPosition";
                 }
 
+                // Pick the constructor for this rule if there are others with the same items
+                for (int variant = constructor_variant(ntDefn, ruleDefn->first); variant > 0; --variant) {
+                    *m_SourceFile << ", 0";
+                }
+
                 *m_SourceFile << "));\n";
             }
 
diff --git a/TameParse/Compiler/OutputStages/cplusplus.h b/TameParse/Compiler/OutputStages/cplusplus.h
index 7908d0d..f5f114e 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.h
+++ b/TameParse/Compiler/OutputStages/cplusplus.h
@@ -86,6 +86,11 @@ namespace compiler {
         virtual bool name_is_valid(const std::wstring& name);
 
     private:
+        /// \brief The number of rules before the specified rule whose items have the same types
+        ///
+        /// This is 0 for most rules. The constructors for any others need to be distinguished from the ones for the earlier rules.
+        int constructor_variant(const ast_nonterminal& nonterminal, int ruleId);
+
         /// \brief Writes out the terminal symbols definitions to the header file
         void header_terminal_symbols();
 
-- 
2.43.0


From df1bbee698170690b21c34653d3e20ff9045c842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:31 +0000
Subject: [PATCH 44/59] fix: generated classes give items that would have the
 same field name names of their own

---
 TameParse/Compiler/OutputStages/cplusplus.cpp | 17 +++++++++++++
 TameParse/Compiler/OutputStages/cplusplus.h   |  8 +++++++
 TameParse/Compiler/output_stage.cpp           | 24 +++++++++++++++++--
 TameParse/Compiler/output_stage.h             |  8 +++++++
 4 files changed, 55 insertions(+), 2 deletions(-)

diff --git a/TameParse/Compiler/OutputStages/cplusplus.cpp b/TameParse/Compiler/OutputStages/cplusplus.cpp
index 531bf45..8c61bc9 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.cpp
+++ b/TameParse/Compiler/OutputStages/cplusplus.cpp
@@ -250,6 +250,23 @@ bool output_cplusplus::name_is_valid(const std::wstring& name) {
     return true;
 }
 
+/// \brief Returns the name that the specified item name has in the output language
+std::wstring output_cplusplus::output_name(const std::wstring& name) {
+    string identifier = get_identifier(name, false);
+    return wstring(identifier.begin(), identifier.end());
+}
+
+/// \brief Returns true if the specified name can be used for an item in the rules for the specified nonterminal
+bool output_cplusplus::name_is_valid_in(const std::wstring& name, const contextfree::item_container& nonterminal) {
+    if (!name_is_valid(name)) return false;
+
+    // A field can't have the same name as the class that it's in
+    string className = class_name_for_item(nonterminal) + s_TypeSuffix;
+    string fieldName = get_identifier(name, false);
+
+    return fieldName != className && fieldName != className + s_ContentSuffix;
+}
+
 //              ================
 //               General output
 //              ================
diff --git a/TameParse/Compiler/OutputStages/cplusplus.h b/TameParse/Compiler/OutputStages/cplusplus.h
index f5f114e..4dd7eeb 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.h
+++ b/TameParse/Compiler/OutputStages/cplusplus.h
@@ -85,6 +85,14 @@ namespace compiler {
         /// other places where a unique name is required)
         virtual bool name_is_valid(const std::wstring& name);
 
+        /// \brief Returns the name that the specified item name has in the output language
+        ///
+        /// Items with names that are the same in the output language cannot be distinguished from one another
+        virtual std::wstring output_name(const std::wstring& name);
+
+        /// \brief Returns true if the specified name can be used for an item in the rules for the specified nonterminal
+        virtual bool name_is_valid_in(const std::wstring& name, const contextfree::item_container& nonterminal);
+
     private:
         /// \brief The number of rules before the specified rule whose items have the same types
         ///
diff --git a/TameParse/Compiler/output_stage.cpp b/TameParse/Compiler/output_stage.cpp
index 3a82338..f388eda 100644
--- a/TameParse/Compiler/output_stage.cpp
+++ b/TameParse/Compiler/output_stage.cpp
@@ -436,6 +436,18 @@ bool output_stage::name_is_valid(const std::wstring& name) {
     return !name.empty();
 }
 
+/// \brief Returns the name that the specified item name has in the output language
+std::wstring output_stage::output_name(const std::wstring& name) {
+    // Names aren't changed by default
+    return name;
+}
+
+/// \brief Returns true if the specified name can be used for an item in the rules for the specified nonterminal
+bool output_stage::name_is_valid_in(const std::wstring& name, const contextfree::item_container& nonterminal) {
+    // By default, all valid names can be used anywhere
+    return name_is_valid(name);
+}
+
 /// \brief Generates the rules for each nonterminal
 void output_stage::generate_ast_rules() {
     // Maps nonterminals to their corresponding rules
@@ -468,6 +480,9 @@ void output_stage::generate_ast_rules() {
         // Set it up
         thisNt.nonterminalId = nonterminalId;
 
+        // The items that each of the names have been used for within this nonterminal (a name can only be shared between rules by the same item)
+        map<wstring, int> itemForName;
+
         for (rule_list::iterator nextRule = rulesForNonterminal[nonterminalId].begin(); nextRule != rulesForNonterminal[nonterminalId].end(); ++nextRule) {
             // Get the identifier for this rule
             int ruleId = gram().identifier_for_rule(*nextRule);
@@ -496,7 +511,12 @@ void output_stage::generate_ast_rules() {
                 wstring uniqueName  = baseName;
                 int     offset      = 1;
 
-                while (usedNames.find(uniqueName) != usedNames.end() || !name_is_valid(uniqueName)) {
+                // The item that needs a name
+                int itemId = gram().identifier_for_item(*ruleItem);
+
+                while (usedNames.find(output_name(uniqueName)) != usedNames.end() 
+                        || itemForName.insert(make_pair(output_name(uniqueName), itemId)).first->second != itemId
+                        || !name_is_valid_in(uniqueName, (*nextRule)->nonterminal())) {
                     // Append _2, etc if this name has already been encountered in this rule or is invalid
                     offset++;
 
@@ -508,7 +528,7 @@ void output_stage::generate_ast_rules() {
                 }
 
                 // Remember the unique name
-                usedNames.insert(uniqueName);
+                usedNames.insert(output_name(uniqueName));
 
                 // Set the 'EBNF repetition' flag
                 bool isEbnfRepeat = false;
diff --git a/TameParse/Compiler/output_stage.h b/TameParse/Compiler/output_stage.h
index a0b6bee..3b0b8ea 100644
--- a/TameParse/Compiler/output_stage.h
+++ b/TameParse/Compiler/output_stage.h
@@ -159,6 +159,14 @@ namespace compiler {
         /// other places where a unique name is required)
         virtual bool name_is_valid(const std::wstring& name);
 
+        /// \brief Returns the name that the specified item name has in the output language
+        ///
+        /// Items with names that are the same in the output language cannot be distinguished from one another
+        virtual std::wstring output_name(const std::wstring& name);
+
+        /// \brief Returns true if the specified name can be used for an item in the rules for the specified nonterminal
+        virtual bool name_is_valid_in(const std::wstring& name, const contextfree::item_container& nonterminal);
+
     protected:
         // Functions that represent various steps of the output of a language.
         // These are intended to make it easy to write out a file in the specified language.
-- 
2.43.0


From 5d5e8c62c2b8b0d9417ae311f1b0ab902d4886d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:49 +0000
Subject: [PATCH 45/59] fix: generated symbol constants all have different
 names

---
 TameParse/Compiler/OutputStages/cplusplus.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/TameParse/Compiler/OutputStages/cplusplus.cpp b/TameParse/Compiler/OutputStages/cplusplus.cpp
index 8c61bc9..130e8a5 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.cpp
+++ b/TameParse/Compiler/OutputStages/cplusplus.cpp
@@ -381,7 +381,9 @@ void output_cplusplus::header_terminal_symbols() {
             ourName << "_" << count;
         }
 
+        // Remember both the name that was asked for and the one that was picked
         ++terminalSymbolCount[shortName];
+        if (ourName.str() != shortName) ++terminalSymbolCount[ourName.str()];
 
         // Output a constant for this terminal
         *m_HeaderFile << "        static const int " << ourName.str() << " = " << term->identifier << ";\n";
@@ -427,7 +429,9 @@ void output_cplusplus::header_nonterminal_symbols() {
             ourName << "_" << count;
         }
         
+        // Remember both the name that was asked for and the one that was picked
         ++nonterminalSymbolCount[shortName];
+        if (ourName.str() != shortName) ++nonterminalSymbolCount[ourName.str()];
         
         // Output a constant for this terminal
         *m_HeaderFile << "        static const int " << ourName.str() << " = " << nonterm->identifier << ";\n";
-- 
2.43.0


From e27b88a4890b25818628d3cb0da2140926c280b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:38 +0000
Subject: [PATCH 46/59] fix: generated functions for start symbols all have
 different names

---
 TameParse/Compiler/OutputStages/cplusplus.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/TameParse/Compiler/OutputStages/cplusplus.cpp b/TameParse/Compiler/OutputStages/cplusplus.cpp
index 130e8a5..471ec4b 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.cpp
+++ b/TameParse/Compiler/OutputStages/cplusplus.cpp
@@ -926,6 +926,9 @@ void output_cplusplus::header_start_symbols() {
     // Fetch the start symbols
     const vector<wstring>& startSymbols = get_start_symbols();
 
+    // The names that have been used for the start symbols
+    set<string> usedStartNames;
+
     // Write out functions for generating the initial state for each start symbol
     int initialState = 0;
     for (vector<wstring>::const_iterator startSymbol = startSymbols.begin(); startSymbol != startSymbols.end(); ++startSymbol) {
@@ -933,6 +936,13 @@ void output_cplusplus::header_start_symbols() {
         // TODO: avoid clashes with defined symbols called 'create_X'
         string startName = get_identifier(*startSymbol, true);
 
+        // Different start symbols can have the same identifier: append _2, etc to the later ones
+        for (int variant = 2; !usedStartNames.insert(startName).second; ++variant) {
+            stringstream variantName;
+            variantName << get_identifier(*startSymbol, true) << "_" << variant;
+            startName = variantName.str();
+        }
+
         // Define a function 
         *m_HeaderFile   << "    inline static state* create_" << startName << "(parser_actions* actions) {\n"
                         << "        return ast_parser.create_parser(actions, " << initialState << ");\n"
-- 
2.43.0


From 2c85a21f367af6914586f0673f9a8517d88998ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:57 +0000
Subject: [PATCH 47/59] fix: generated parsers create terminals of the right
 class for symbols split from a weak symbol

---
 TameParse/Compiler/OutputStages/cplusplus.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/TameParse/Compiler/OutputStages/cplusplus.cpp b/TameParse/Compiler/OutputStages/cplusplus.cpp
index 471ec4b..eacb486 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.cpp
+++ b/TameParse/Compiler/OutputStages/cplusplus.cpp
@@ -1566,8 +1566,15 @@ void output_cplusplus::source_shift_actions() {
         name += s_TypeSuffix;
 
         // Declare a shift action for this symbol
-        *m_SourceFile   << "\n    case " << term->identifier << ": // " << get_identifier(terminals().name_for_symbol(term->identifier), true) << "\n"
-                        << "        return node(new " << name << "(lexeme));\n";
+        *m_SourceFile   << "\n    case " << term->identifier << ": // " << get_identifier(terminals().name_for_symbol(term->identifier), true) << "\n";
+
+        // This is also the action for any symbols that have been split from this one
+        const terminal_dictionary::symbol_set& splitSymbols = terminals().children_of(term->identifier);
+        for (terminal_dictionary::symbol_set::const_iterator splitSymbol = splitSymbols.begin(); splitSymbol != splitSymbols.end(); ++splitSymbol) {
+            *m_SourceFile << "    case " << *splitSymbol << ":\n";
+        }
+
+        *m_SourceFile   << "        return node(new " << name << "(lexeme));\n";
     }
                     
     // Default actions is to create an empty node
-- 
2.43.0


From be962bcdede704a43a4ce46a790a8222024ce992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:26 +0000
Subject: [PATCH 48/59] fix: symbols that are only used in guards are not
 unused

---
 TameParse/Compiler/language_stage.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/TameParse/Compiler/language_stage.cpp b/TameParse/Compiler/language_stage.cpp
index d33babb..5f6f36e 100644
--- a/TameParse/Compiler/language_stage.cpp
+++ b/TameParse/Compiler/language_stage.cpp
@@ -83,6 +83,12 @@ void language_stage::process_rule_symbols(const contextfree::rule& rule) {
                 process_rule_symbols(**ebnfRule);
             }
         }
+
+        // Symbols that are only used to match a guard are also used
+        const guard* guardItem = (*item)->cast_guard();
+        if (guardItem) {
+            process_rule_symbols(*guardItem->get_rule());
+        }
     }
 }
 
-- 
2.43.0


From ab1da8c0608bd3b1de04d768f885783077331c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:40 +0000
Subject: [PATCH 49/59] fix: clashing guards at the start of a rule are
 reported, in the file of their rule

---
 TameParse/Compiler/lr_parser_stage.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/TameParse/Compiler/lr_parser_stage.cpp b/TameParse/Compiler/lr_parser_stage.cpp
index 8ffed96..a394525 100644
--- a/TameParse/Compiler/lr_parser_stage.cpp
+++ b/TameParse/Compiler/lr_parser_stage.cpp
@@ -144,13 +144,17 @@ static void warn_clashing_guards(console& cons, const language_stage* language,
             // Get the state ID
             const lalr_state_container& state = builder->machine().state_with_id(stateId);
 
+            // The guards can be in any of the items in the closure of the state, not just in the kernel
+            lalr_builder::closure_set closure;
+            lalr_builder::create_closure(closure, *state, &builder->gram());
+
             // Iterate through the guards
             for (set<item_container>::iterator clashingGuard = guarded->second.begin(); clashingGuard != guarded->second.end(); ++clashingGuard) {
                 // Warned about this guard
                 warnedGuards.insert(*clashingGuard);
 
                 // Find all of the LR items that have a reference to this guard
-                for (lalr_state::iterator lrItem = state->begin(); lrItem != state->end(); ++lrItem) {
+                for (lalr_builder::closure_set::const_iterator lrItem = closure.begin(); lrItem != closure.end(); ++lrItem) {
                     // Ignore at end items
                     if ((*lrItem)->at_end()) continue;
 
@@ -187,7 +191,7 @@ static void warn_clashing_guards(console& cons, const language_stage* language,
                     msg << (!shownWarning?L"when used here: ":L"or here: ")
                         << formatter::to_string(**lrItem, builder->gram(), builder->terminals());
                     
-                    cons.report_error(error(error::sev_detail, language->filename(), L"CLASHING_GUARDS_DETAIL", msg.str(), rulePos));
+                    cons.report_error(error(error::sev_detail, ruleFile, L"CLASHING_GUARDS_DETAIL", msg.str(), rulePos));
 
                     shownWarning    = true;
                 }
@@ -198,12 +202,13 @@ static void warn_clashing_guards(console& cons, const language_stage* language,
                 for (set<lr0_item_container>::const_iterator remainingGuard = allowedToClash.begin(); remainingGuard != allowedToClash.end(); ++remainingGuard) {
                     int             ruleId      = (*remainingGuard)->rule()->identifier(*language->grammar());
                     position        rulePos     = language->rule_definition_pos(ruleId);
+                    const wstring&  ruleFile    = language->rule_definition_file(ruleId);
                     
                     wstringstream msg;
                     msg << L"or here: "
                     << formatter::to_string(**remainingGuard, builder->gram(), builder->terminals());
                     
-                    cons.report_error(error(error::sev_detail, language->filename(), L"CLASHING_GUARDS_DETAIL", msg.str(), rulePos));
+                    cons.report_error(error(error::sev_detail, ruleFile, L"CLASHING_GUARDS_DETAIL", msg.str(), rulePos));
                 }
             }
         }
-- 
2.43.0


From c8842c6872f3a01265b91321bd55370c52c3a181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:39 +0000
Subject: [PATCH 50/59] fix: a definition file is the same file whatever name
 it is imported by

---
 parsetool/boost_console.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/parsetool/boost_console.cpp b/parsetool/boost_console.cpp
index f9e1d6a..23e7235 100644
--- a/parsetool/boost_console.cpp
+++ b/parsetool/boost_console.cpp
@@ -294,6 +294,20 @@ std::wstring boost_console::real_path(const std::wstring& pathname) {
     fs::wpath absolute;
     
     try {
+        // Relative files can also be found next to the input file (see open_file)
+        if (path.is_relative() && !input_file().empty() && !fs::exists(path)) {
+            fs::wpath inputPath(input_file());
+            inputPath.remove_filename();
+            inputPath /= path;
+            
+            if (fs::exists(inputPath)) path = inputPath;
+        }
+        
+        // A file that exists has just one canonical path, whichever way it was named
+        if (fs::exists(path)) {
+            return fs::canonical(path).generic_wstring();
+        }
+        
         // Try to get the absolute path for this file
         absolute = fs::absolute(path);
         return absolute.generic_wstring();
-- 
2.43.0


From 158578d8acdf17ac51fdefbce3fbbe84ae79950b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:57 +0000
Subject: [PATCH 51/59] fix: the tool fails if its output cannot be written

---
 TameParse/Compiler/OutputStages/cplusplus.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/TameParse/Compiler/OutputStages/cplusplus.cpp b/TameParse/Compiler/OutputStages/cplusplus.cpp
index eacb486..5511adc 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.cpp
+++ b/TameParse/Compiler/OutputStages/cplusplus.cpp
@@ -26,6 +26,7 @@
 //
 
 #include <time.h>
+#include <fstream>
 #include <sstream>
 #include <algorithm>
 #include <locale>
@@ -303,7 +304,9 @@ void output_cplusplus::begin_output() {
     m_SourceFile = cons().open_binary_file_for_writing(sourceFilename);
     m_HeaderFile = cons().open_binary_file_for_writing(headerFilename);
 
-    // TODO: check for errors (file streams will be NULL)
+    // Write to nowhere if the files can't be opened (this is reported as an error when the output is finished)
+    if (!m_SourceFile) m_SourceFile = new fstream();
+    if (!m_HeaderFile) m_HeaderFile = new fstream();
 
     // Write out a header
     write_header(sourceFilename, m_SourceFile);
@@ -346,6 +349,14 @@ void output_cplusplus::end_output() {
     }
 
     *m_HeaderFile << "\n#endif\n";    // End of the conditional
+    
+    // Report an error if either of the files could not be written
+    if (!m_SourceFile->flush().good()) {
+        cons().report_error(error(error::sev_fatal, m_FilenamePrefix + L".cpp", L"CANT_WRITE_FILE", L"Cannot write to file", position(-1, -1, -1)));
+    }
+    if (!m_HeaderFile->flush().good()) {
+        cons().report_error(error(error::sev_fatal, m_FilenamePrefix + L".h", L"CANT_WRITE_FILE", L"Cannot write to file", position(-1, -1, -1)));
+    }
 }
 
 
-- 
2.43.0


From 460aec9f46f12e7542c4c4bad52e01a29cf986d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:19 +0000
Subject: [PATCH 52/59] fix: tracing a parser that rejects the end of the input
 does not crash

---
 TameParse/Lr/parser.h | 6 ++++++
 parsetool/main.cpp    | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/TameParse/Lr/parser.h b/TameParse/Lr/parser.h
index 75def0f..1ac31c8 100644
--- a/TameParse/Lr/parser.h
+++ b/TameParse/Lr/parser.h
@@ -108,6 +108,12 @@ namespace lr {
         }
 
         inline void reject(const lexeme_container& lookahead) {
+            // There's no lookahead at the end of the input
+            if (!lookahead.item()) {
+                std::wcerr << L"REJECT: end of input" << std::endl;
+                return;
+            }
+            
             std::wcerr << L"REJECT: " << lookahead->content<wchar_t>() << L" (" << lookahead->matched() << L")" << std::endl;
             std::wcerr << L"At line: " << lookahead->pos().line() << std::endl;
         }
diff --git a/parsetool/main.cpp b/parsetool/main.cpp
index 00eafe5..c0d789c 100644
--- a/parsetool/main.cpp
+++ b/parsetool/main.cpp
@@ -359,6 +359,9 @@ int main (int argc, const char * argv[])
                 trace_parser::stack stack = stdInParser->get_stack();
                 console.verbose_stream() << endl << L"Stack:" << endl;
                 do {
+                    // The bottom of the stack has no item
+                    if (!stack->item.item()) continue;
+                    
                     console.verbose_stream() << formatter::to_string(*stack->item, *compileLanguageStage->grammar(), *compileLanguageStage->terminals()) << endl;
                 } while (stack.pop());
             }
-- 
2.43.0


From b59235a586d8b1f4d34f44852e8d364d1bae8e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:57 +0000
Subject: [PATCH 53/59] fix: files that are imported are searched for on the
 include path

---
 parsetool/boost_console.cpp | 54 ++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/parsetool/boost_console.cpp b/parsetool/boost_console.cpp
index 23e7235..5e422a3 100644
--- a/parsetool/boost_console.cpp
+++ b/parsetool/boost_console.cpp
@@ -286,6 +286,29 @@ std::string boost_console::convert_filename(const std::wstring& filename) {
     return path.generic_string();
 }
 
+/// \brief The places where a file with the specified name might be found, in the order in which they should be tried
+///
+/// Relative files can be found next to the input file and in the directories of the include path, as well as in the current
+/// directory
+static vector<fs::wpath> search_path(const fs::wpath& path, const wstring& inputFile, const vector<wstring>& includePath) {
+    vector<fs::wpath> result;
+    result.push_back(path);
+    
+    if (path.is_relative()) {
+        if (!inputFile.empty()) {
+            fs::wpath inputPath(inputFile);
+            inputPath.remove_filename();
+            result.push_back(inputPath / path);
+        }
+        
+        for (vector<wstring>::const_iterator dir = includePath.begin(); dir != includePath.end(); ++dir) {
+            result.push_back(fs::wpath(*dir) / path);
+        }
+    }
+    
+    return result;
+}
+
 /// \brief Given a pathname, returns the 'real', absolute pathname
 ///
 /// The default implementation just returns the current path
@@ -294,13 +317,13 @@ std::wstring boost_console::real_path(const std::wstring& pathname) {
     fs::wpath absolute;
     
     try {
-        // Relative files can also be found next to the input file (see open_file)
-        if (path.is_relative() && !input_file().empty() && !fs::exists(path)) {
-            fs::wpath inputPath(input_file());
-            inputPath.remove_filename();
-            inputPath /= path;
-            
-            if (fs::exists(inputPath)) path = inputPath;
+        // Relative files can also be found in some other places (see open_file)
+        vector<fs::wpath> candidates = search_path(path, input_file(), get_option_list(L"include-path"));
+        for (vector<fs::wpath>::iterator candidate = candidates.begin(); candidate != candidates.end(); ++candidate) {
+            if (fs::exists(*candidate)) {
+                path = *candidate;
+                break;
+            }
         }
         
         // A file that exists has just one canonical path, whichever way it was named
@@ -345,21 +368,14 @@ std::istream* boost_console::open_file(const std::wstring& filename) {
     // Create the stream
     fs::fstream* readFile = new fs::fstream();
 
-    // Initially try 
-    readFile->open(path, fstream::in | fstream::binary);
-    
     // Try searching various paths until we find the file
-    if (readFile->fail() && !input_file().empty() && path.is_relative()) {
-        // Try next to the input file
+    vector<fs::wpath> candidates = search_path(path, input_file(), get_option_list(L"include-path"));
+    for (vector<fs::wpath>::iterator candidate = candidates.begin(); candidate != candidates.end(); ++candidate) {
         readFile->close();
+        readFile->clear();
+        readFile->open(*candidate, fstream::in | fstream::binary);
         
-        // Generate a new path based on the input file
-        fs::wpath inputPath(input_file());
-        inputPath.remove_filename();
-        inputPath /= filename;
-        
-        // Try to open this path
-        readFile->open(inputPath, fstream::in | fstream::binary);
+        if (!readFile->fail()) break;
     }
     
     // Return NULL if the file failed to open
-- 
2.43.0


From 58bac20f682023b962343244d3294d6293a35883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:02 +0000
Subject: [PATCH 54/59] fix: comparisons of transitions, LR(1) items and states
 agree with their order

---
 TameParse/Dfa/transition.cpp | 2 +-
 TameParse/Lr/lr_item.h       | 2 +-
 TameParse/Lr/lr_state.h      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/TameParse/Dfa/transition.cpp b/TameParse/Dfa/transition.cpp
index 462731f..666ad73 100644
--- a/TameParse/Dfa/transition.cpp
+++ b/TameParse/Dfa/transition.cpp
@@ -50,5 +50,5 @@ bool transition::operator<(const transition& compareTo) const {
 
 /// \brief Orders this symbol set
 bool transition::operator<=(const transition& compareTo) const {
-    return m_NewState < compareTo.m_NewState || m_SymbolSet < compareTo.m_SymbolSet || operator==(compareTo);
+    return !compareTo.operator<(*this);
 }
diff --git a/TameParse/Lr/lr_item.h b/TameParse/Lr/lr_item.h
index 4afb849..1014e68 100644
--- a/TameParse/Lr/lr_item.h
+++ b/TameParse/Lr/lr_item.h
@@ -226,7 +226,7 @@ namespace lr {
         inline lr1_item* clone() const { return new lr1_item(*this); }
         
         inline bool operator!=(const lr1_item& compareTo) const { return !operator==(compareTo); }
-        inline bool operator>(const lr1_item& compareTo) const { return !operator<(compareTo); }
+        inline bool operator>(const lr1_item& compareTo) const { return compareTo.operator<(*this); }
         inline bool operator<=(const lr1_item& compareTo) const { return operator<(compareTo) || operator==(compareTo); }
         inline bool operator>=(const lr1_item& compareTo) const { return !operator<(compareTo) || operator==(compareTo); }
         
diff --git a/TameParse/Lr/lr_state.h b/TameParse/Lr/lr_state.h
index c18cb0d..02babdb 100644
--- a/TameParse/Lr/lr_state.h
+++ b/TameParse/Lr/lr_state.h
@@ -161,7 +161,7 @@ namespace lr {
             if (!a) return true;
             if (!b) return false;
             
-            return a < b;
+            return *a < *b;
         }
         
     public:
-- 
2.43.0


From f8003e14803546e729ff9ea0e0ab245cb4ab2ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:44 +0000
Subject: [PATCH 55/59] fix: clear_accept destroys the actions it removes

---
 TameParse/Dfa/ndfa.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/TameParse/Dfa/ndfa.cpp b/TameParse/Dfa/ndfa.cpp
index bad521b..710ed75 100644
--- a/TameParse/Dfa/ndfa.cpp
+++ b/TameParse/Dfa/ndfa.cpp
@@ -195,7 +195,13 @@ void ndfa::accept(int state, const accept_action& action) {
 /// \brief Marks the specified state as non-accepting
 void ndfa::clear_accept(int state) {
     // Remove all of the items from this state
-    (*m_Accept)[state].clear();
+    accept_action_list& actions = (*m_Accept)[state];
+    
+    for (accept_action_list::iterator action = actions.begin(); action != actions.end(); ++action) {
+        delete *action;
+    }
+    
+    actions.clear();
 }
 
 /// \brief Returns the surrogate pair for a UTF-32 value
-- 
2.43.0


From f028c12e29a6943885e716b914947be95c50cccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:52 +0000
Subject: [PATCH 56/59] fix: checking a guard inside a guard could leave a
 dangling reference to the lookahead

---
 TameParse/Lr/parser_state.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TameParse/Lr/parser_state.h b/TameParse/Lr/parser_state.h
index 3f8930e..bae57e3 100644
--- a/TameParse/Lr/parser_state.h
+++ b/TameParse/Lr/parser_state.h
@@ -233,8 +233,8 @@ namespace lr {
         
         // Perform parser actions to decide if the guard is accepted or not
         for (;;) {
-            // Fetch the lookahead
-            const lexeme_container& la = look(guardActions.offset());
+            // Fetch the lookahead (a reference would not do: checking another guard can extend, and move, the lookahead list)
+            const lexeme_container la = look(guardActions.offset());
             
             // Get the current state
             int state = guardActions.current_state(this);
-- 
2.43.0


From ee4594daad127ee89fcf2c24209da1ae5369a27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:54 +0000
Subject: [PATCH 57/59] fix: a guard which depends on itself at the same
 position recursed until the stack overflowed

---
 TameParse/Lr/parser.h       | 17 +++++++++++++++++
 TameParse/Lr/parser_state.h |  7 +++++++
 2 files changed, 24 insertions(+)

diff --git a/TameParse/Lr/parser.h b/TameParse/Lr/parser.h
index 1ac31c8..6c9f182 100644
--- a/TameParse/Lr/parser.h
+++ b/TameParse/Lr/parser.h
@@ -260,6 +260,23 @@ namespace lr {
             /// \brief The parser trace class
             parser_trace m_Trace;
             
+            /// \brief A list of guards, as pairs of initial states and lookahead offsets
+            typedef std::vector<std::pair<int, int> > guard_list;
+            
+            /// \brief The guards that are currently being checked
+            guard_list m_ActiveGuards;
+            
+            /// \brief Marks a guard as being checked while this object exists
+            struct active_guard {
+                guard_list& m_List;
+                
+                inline active_guard(guard_list& list, int initialState, int initialOffset) : m_List(list) {
+                    m_List.push_back(std::pair<int, int>(initialState, initialOffset));
+                }
+                
+                inline ~active_guard() { m_List.pop_back(); }
+            };
+            
         private:
             /// \brief States can't be assigned
             state& operator=(const state& noAssignment) { }
diff --git a/TameParse/Lr/parser_state.h b/TameParse/Lr/parser_state.h
index bae57e3..c05a831 100644
--- a/TameParse/Lr/parser_state.h
+++ b/TameParse/Lr/parser_state.h
@@ -225,6 +225,13 @@ namespace lr {
     /// If no accepting state is reached, this will return a negative value (generally -1)
     ///
     template<typename I, typename A, typename T> int parser<I, A, T>::state::check_guard(int initialState, int initialOffset) {
+        // If the result of checking this guard depends on itself, then there's no way to match it
+        for (typename guard_list::const_iterator active = m_ActiveGuards.begin(); active != m_ActiveGuards.end(); ++active) {
+            if (active->first == initialState && active->second == initialOffset) return -1;
+        }
+        
+        active_guard checking(m_ActiveGuards, initialState, initialOffset);
+        
         // Create the guard actions object
         guard_actions guardActions(initialState, initialOffset);
         
-- 
2.43.0


From 022f1ee3dab5dda30520e6d825d1741caec4b95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:12 +0000
Subject: [PATCH 58/59] fix: lexer symbols defined in terms of themselves
 recursed until the stack overflowed

---
 TameParse/Compiler/lexer_stage.cpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/TameParse/Compiler/lexer_stage.cpp b/TameParse/Compiler/lexer_stage.cpp
index 27ba9f5..54c57d5 100644
--- a/TameParse/Compiler/lexer_stage.cpp
+++ b/TameParse/Compiler/lexer_stage.cpp
@@ -114,6 +114,12 @@ namespace compiler {
         /// \brief The lexer data that should be used to compile expressions
         const lexer_data* m_Data;
 
+        /// \brief The names of the expressions that are currently being compiled
+        set<wstring> m_Compiling;
+
+        /// \brief The names of the expressions that were found to contain themselves
+        set<wstring> m_Recursive;
+
     public:
         ndfa_lexer_compiler(const lexer_data* data)
         : m_Data(data) { }
@@ -121,11 +127,18 @@ namespace compiler {
         /// \brief Compiles the value of a {} expression
         virtual bool compile_expression(const symbol_string& expression, builder& cons) {
             // Look up the expression in the lexer data
-            const item_list& items = m_Data->get_expressions(convert_syms(expression));
+            const wstring       name    = convert_syms(expression);
+            const item_list&    items   = m_Data->get_expressions(name);
 
             // Use the standard behaviour if we don't find any items
             if (items.empty()) return ndfa_regex::compile_expression(expression, cons);
 
+            // Expressions that contain themselves can't be compiled
+            if (!m_Compiling.insert(name).second) {
+                m_Recursive.insert(name);
+                return false;
+            }
+
             // Remember the current state of the builder
             bool isLower = cons.make_lowercase();
             bool isUpper = cons.make_uppercase();
@@ -169,6 +182,7 @@ namespace compiler {
             // Done: reset the constructor
             cons.set_case_options(isLower, isUpper);
             cons.pop();
+            m_Compiling.erase(name);
 
             // Found an expression
             return true;
@@ -185,6 +199,8 @@ namespace compiler {
             return ndfa_regex::check_expression(expression);
         }
 
+        /// \brief The names of the expressions that were found to contain themselves
+        const set<wstring>& recursive_expressions() const { return m_Recursive; }
     };
 }
 
@@ -403,6 +419,15 @@ void lexer_stage::compile() {
         ignoreBuilder >> language_accept_action(ignoreSymbol, language_unit::unit_ignore_definition, false);
     }
 
+    // Report any expressions that contain themselves
+    for (set<wstring>::const_iterator recursive = stage0->recursive_expressions().begin(); recursive != stage0->recursive_expressions().end(); ++recursive) {
+        const lexer_item&   item = lex->get_expressions(*recursive).front();
+        wstringstream       msg;
+
+        msg << L"Lexer symbol is defined in terms of itself: '" << *recursive << L"'";
+        cons().report_error(error(error::sev_error, item.filename ? *item.filename : filename(), L"RECURSIVE_LEXER_SYMBOL", msg.str(), item.position));
+    }
+
     // Write out some stats about the ndfa
     cons().verbose_stream() << L"    Number states in the NDFA:              " << stage0->count_states() << endl;
     
-- 
2.43.0


From cc9a683b66517a3a9576eba62baeb3e9babb3004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:19 +0000
Subject: [PATCH 59/59] fix: the stream of a file with syntax errors was never
 closed

---
 TameParse/Compiler/parser_stage.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/TameParse/Compiler/parser_stage.cpp b/TameParse/Compiler/parser_stage.cpp
index 7c67097..92f6ce1 100644
--- a/TameParse/Compiler/parser_stage.cpp
+++ b/TameParse/Compiler/parser_stage.cpp
@@ -54,6 +54,7 @@ void parser_stage::compile() {
     // Report an error if the file could not be opened
     if (!fileStream || !fileStream->good()) {
         cons().report_error(error(error::sev_fatal, filename(), L"CANT_OPEN_FILE", L"Cannot read from file", position(-1, -1, -1)));
+        delete fileStream;
         return;
     }
     
@@ -61,6 +62,9 @@ void parser_stage::compile() {
     m_Parser.set_filename(filename());
     bool parsedOk = m_Parser.parse(*fileStream);
     
+    // Finished with the file
+    delete fileStream;
+    
     // Report an error if we failed to parse OK
     if (!parsedOk) {
         // Fetch the errors
@@ -76,9 +80,5 @@ void parser_stage::compile() {
             // Whoops, couldn't report the syntax error
             cons().report_error(error(error::sev_bug, filename(), L"BUG_CANT_REPORT_SYNTAX", L"Unknown syntax error", position(-1, -1, -1)));
         }
-        return;
     }
-    
-    // Done
-    delete fileStream;
 }
-- 
2.43.0

