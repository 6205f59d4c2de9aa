From 0180504eb337b0a4cf4a4f42fc0ec501b379d136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:46 +0000
Subject: [PATCH 01/13] fix: repetition with an exact count no longer panics
 when building the NFA

---
 lapex-lexer/src/nfa/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lapex-lexer/src/nfa/mod.rs b/lapex-lexer/src/nfa/mod.rs
index 631f861..3a8f585 100644
--- a/lapex-lexer/src/nfa/mod.rs
+++ b/lapex-lexer/src/nfa/mod.rs
@@ -105,6 +105,9 @@ fn build_nfa_from_pattern<'rules>(
                             nfa.add_epsilon_transition(inner_end, previous);
                             nfa.add_epsilon_transition(inner_end, end);
                         }
+                        Some(max) if max == min => {
+                            nfa.add_epsilon_transition(inner_end, end);
+                        }
                         Some(max) => {
                             let additional_until_max = max - min;
                             let max_start = nfa.add_intermediate_state();
-- 
2.43.0


From df6ad0eff63e38ef01aef3fe4b63947f2d867b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:04 +0000
Subject: [PATCH 02/13] fix: report TooManyRules instead of wrapping or
 overflowing symbol indices

---
 lapex-parser/src/grammar_builder.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lapex-parser/src/grammar_builder.rs b/lapex-parser/src/grammar_builder.rs
index 17a0c07..da3419c 100644
--- a/lapex-parser/src/grammar_builder.rs
+++ b/lapex-parser/src/grammar_builder.rs
@@ -21,14 +21,14 @@ impl<'rules> GrammarBuilder<'rules> {
             .token_rules
             .iter()
             .enumerate()
-            .map(|(i, rule)| (rule.inner.name, Symbol::Terminal(i as SymbolIdx), rule))
-            .collect();
+            .map(|(i, rule)| Ok((rule.inner.name, Symbol::Terminal(i.try_into()?), rule)))
+            .collect::<Result<_, GrammarError>>()?;
         let production_triples: Vec<(&str, Symbol, &Spanned<ProductionRule>)> = rule_set
             .production_rules
             .iter()
             .enumerate()
-            .map(|(i, rule)| (rule.inner.name, Symbol::NonTerminal(i as SymbolIdx), rule))
-            .collect();
+            .map(|(i, rule)| Ok((rule.inner.name, Symbol::NonTerminal(i.try_into()?), rule)))
+            .collect::<Result<_, GrammarError>>()?;
         let mut symbols_with_span = BTreeMap::new();
         let mut tokens = BTreeMap::new();
         let mut productions = BTreeMap::new();
@@ -80,9 +80,14 @@ impl<'rules> GrammarBuilder<'rules> {
     }
 
     fn get_temp_symbol(&mut self) -> Result<Symbol, GrammarError> {
-        let non_terminal = Symbol::NonTerminal(self.temp_count + self.max_symbol + 1);
+        let index = self
+            .max_symbol
+            .checked_add(1)
+            .and_then(|i| i.checked_add(self.temp_count))
+            .ok_or(GrammarError::TooManyRules)?;
+        let non_terminal = Symbol::NonTerminal(index);
         self.anonymous_non_terminals.push(non_terminal.clone());
-        self.temp_count = self.temp_count.checked_add(1).unwrap();
+        self.temp_count += 1;
         Ok(non_terminal)
     }
 
-- 
2.43.0


From f3fbdf2a5df2d472d0b38eef6a640b4a26bf075c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:04 +0000
Subject: [PATCH 03/13] fix: a rule set without any rules reports the missing
 entry instead of panicking

---
 lapex-parser/src/grammar_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lapex-parser/src/grammar_builder.rs b/lapex-parser/src/grammar_builder.rs
index da3419c..a8b5331 100644
--- a/lapex-parser/src/grammar_builder.rs
+++ b/lapex-parser/src/grammar_builder.rs
@@ -68,7 +68,7 @@ impl<'rules> GrammarBuilder<'rules> {
                     Symbol::Terminal(t_index) => *t_index,
                 })
                 .max()
-                .unwrap(),
+                .unwrap_or(0),
             symbols: symbols_with_span
                 .into_iter()
                 .map(|(name, (symbol, _span))| (name, symbol))
-- 
2.43.0


From 4f70c51b7a448eb7e60bcbc234f5541710ef0995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:04 +0000
Subject: [PATCH 04/13] fix: LL table keys no longer overflow for the last
 terminal index

---
 lapex-parser/src/ll_parser/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lapex-parser/src/ll_parser/mod.rs b/lapex-parser/src/ll_parser/mod.rs
index 6b768c6..ce1f8ca 100644
--- a/lapex-parser/src/ll_parser/mod.rs
+++ b/lapex-parser/src/ll_parser/mod.rs
@@ -117,7 +117,7 @@ impl LLParserTable {
                 Symbol::Terminal(terminal_index) => {
                     return self
                         .table
-                        .get(&(non_terminal_index, Some(terminal_index + 1)));
+                        .get(&(non_terminal_index, Some(*terminal_index)));
                 }
                 Symbol::End => {
                     return self.table.get(&(non_terminal_index, None));
@@ -139,7 +139,7 @@ impl LLParserTable {
             return Err(LLParserError::ParserTableConflict {
                 non_terminal: Symbol::NonTerminal(non_terminal_index),
                 terminal: match terminal_index {
-                    Some(terminal_index) => Symbol::Terminal(terminal_index - 1),
+                    Some(terminal_index) => Symbol::Terminal(terminal_index),
                     None => Symbol::End,
                 },
                 production: production.clone(),
@@ -162,7 +162,7 @@ impl LLParserTable {
                 Symbol::Terminal(terminal_index) => {
                     self.check_for_conflict_and_insert(
                         non_terminal_index,
-                        Some(terminal_index + 1),
+                        Some(terminal_index),
                         production,
                     )?;
                     return Ok(());
-- 
2.43.0


From 5538cd9b3f3dec6cd2d4cb2ff52e09570496bb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:04 +0000
Subject: [PATCH 05/13] fix: LR items skip empty markers in the middle of a
 right-hand side

---
 lapex-parser/src/lr_parser/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lapex-parser/src/lr_parser/mod.rs b/lapex-parser/src/lr_parser/mod.rs
index 2162ba7..841d673 100644
--- a/lapex-parser/src/lr_parser/mod.rs
+++ b/lapex-parser/src/lr_parser/mod.rs
@@ -86,7 +86,7 @@ fn determine_lookaheads_to_expand<const N: usize>(
         if let Some(follow_symbol) = follow_symbol {
             match follow_symbol {
                 t @ Symbol::Terminal(_) => vec![[t; N]],
-                Symbol::NonTerminal(_) => {
+                Symbol::NonTerminal(_) | Symbol::Epsilon => {
                     let remaining_rhs: Vec<Symbol> = item
                         .symbols_following_symbol_after_dot()
                         .chain(std::iter::once(top.lookahead()[0]))
@@ -190,6 +190,9 @@ fn generate_parser_graph<'grammar: 'rules, 'rules, const N: usize>(
                 let mut target_item = item.clone();
                 if target_item.rule().lhs().is_some() {
                     target_item.advance_dot();
+                    while let Some(Symbol::Epsilon) = target_item.symbol_after_dot() {
+                        target_item.advance_dot();
+                    }
                     let target_item_set =
                         expand_item(target_item, first_sets, &rules_map, &mut item_set_cache);
                     let transition_set = transition_map
-- 
2.43.0


From 2f8aa5d590fc34124dbecba28a37841a1092dd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:04 +0000
Subject: [PATCH 06/13] fix: LR(0) reductions are entered for terminals and end
 of input only

---
 lapex-parser/src/lr_parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lapex-parser/src/lr_parser/mod.rs b/lapex-parser/src/lr_parser/mod.rs
index 841d673..86bd814 100644
--- a/lapex-parser/src/lr_parser/mod.rs
+++ b/lapex-parser/src/lr_parser/mod.rs
@@ -497,7 +497,7 @@ fn build_table<'grammar, 'rules, const N: usize>(
             if item.symbol_after_dot().is_none() {
                 match N {
                     0 => {
-                        for symbol in grammar.symbols().chain(std::iter::once(Symbol::End)) {
+                        for symbol in grammar.terminals().chain(std::iter::once(Symbol::End)) {
                             table.insert_reduce(*state, symbol, item.rule())
                         }
                     }
-- 
2.43.0


From 6314ccaf7af4290ad38d69b8e217a8bd2c2f6e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:04 +0000
Subject: [PATCH 07/13] fix: source positions are found in texts with more than
 65535 lines or columns

---
 lapex-input/src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lapex-input/src/lib.rs b/lapex-input/src/lib.rs
index 0703817..30d1fb2 100644
--- a/lapex-input/src/lib.rs
+++ b/lapex-input/src/lib.rs
@@ -14,10 +14,11 @@ pub struct SourceSpan {
 
 impl SourcePos {
     fn offset(&self, text: &str) -> Option<usize> {
-        let mut line = 1;
-        let mut col = 1;
+        let (self_line, self_col) = (self.line as usize, self.col as usize);
+        let mut line: usize = 1;
+        let mut col: usize = 1;
         for (offset, ch) in text.char_indices() {
-            if line == self.line && col == self.col {
+            if line == self_line && col == self_col {
                 return Some(offset);
             }
             match ch {
@@ -30,7 +31,7 @@ impl SourcePos {
                 }
             }
         }
-        (line == self.line && col == self.col).then_some(text.len())
+        (line == self_line && col == self_col).then_some(text.len())
     }
 }
 
-- 
2.43.0


From 71298e8c7aca4171930ababeb9fde76221aa4aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:26 +0000
Subject: [PATCH 08/13] fix: columns of rule spans count characters, not bytes

---
 lapex-input-gen/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lapex-input-gen/src/lib.rs b/lapex-input-gen/src/lib.rs
index ceadc3d..9a9b0d6 100644
--- a/lapex-input-gen/src/lib.rs
+++ b/lapex-input-gen/src/lib.rs
@@ -526,7 +526,7 @@ impl LapexInputParser for GeneratedLapexInputParser {
                         line += 1;
                     }
                     TokenType::TkWhitespace => {
-                        col += lexer.slice().len() as u16;
+                        col += lexer.slice().chars().count() as u16;
                         next_tk = lexer.next().unwrap();
                     }
                     _ => break,
@@ -534,7 +534,7 @@ impl LapexInputParser for GeneratedLapexInputParser {
             }
             let start_line = line;
             let start_col = col;
-            col += lexer.slice().len() as u16;
+            col += lexer.slice().chars().count() as u16;
 
             let token_data = TokenData {
                 text: lexer.slice(),
-- 
2.43.0


From 14a1793d16c6a81676ba823d7c12baaf9f9e3ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:24 +0000
Subject: [PATCH 09/13] fix: the generated Rust lexer tells a NUL character
 from the end of the input

---
 lapex-rust-codegen/src/lexer/mod.rs | 39 ++++++++++++++++-------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/lapex-rust-codegen/src/lexer/mod.rs b/lapex-rust-codegen/src/lexer/mod.rs
index da34992..fe083df 100644
--- a/lapex-rust-codegen/src/lexer/mod.rs
+++ b/lapex-rust-codegen/src/lexer/mod.rs
@@ -60,19 +60,17 @@ impl<'grammar> LexerCodeWriter<'grammar> {
             let state_id = index.index();
             if state_id == 0 {
                 automaton_cases
-                    .push(quote! { (#state_id, 0) => { return Ok(TokenType::EndOfFile); } });
+                    .push(quote! { (#state_id, None) => { return Ok(TokenType::EndOfFile); } });
             }
             for (transition, target) in self.dfa.transitions_from(index) {
-                if *transition != 0 {
-                    let target_index = target.index();
-                    automaton_cases.push(quote! {
-                        (#state_id, #transition) => {
-                            let next_ch = self.char_iter.next().unwrap();
-                            self.position += next_ch.len_utf8();
-                            state = #target_index;
-                        }
-                    });
-                }
+                let target_index = target.index();
+                automaton_cases.push(quote! {
+                    (#state_id, Some(#transition)) => {
+                        let next_ch = self.char_iter.next().unwrap();
+                        self.position += next_ch.len_utf8();
+                        state = #target_index;
+                    }
+                });
             }
             if let AutomatonState::Accepting(accept) = node {
                 let name: TokenStream = get_token_enum_name(accept.name).parse().unwrap();
@@ -85,7 +83,7 @@ impl<'grammar> LexerCodeWriter<'grammar> {
                 automaton_cases.push(quote! {
                     (#state_id, transition) => {
                         return Err(LexerError::UnexpectedAlphabet {
-                            range: Lexer::get_alphabet_range(transition).unwrap()
+                            range: Lexer::get_alphabet_range(transition.unwrap_or(0)).unwrap()
                         });
                     }
                 });
@@ -160,13 +158,18 @@ impl<'grammar> LexerCodeWriter<'grammar> {
                     let mut state: usize = 0;
                     self.start = self.position;
                     loop {
-                        let next_ch = self.char_iter.peek().copied().map(|c| c as u32).unwrap_or(0);
-                        let symbol = if let Some(symbol) = Lexer::get_alphabet_index(next_ch) {
-                            symbol
+                        // None is the end of the input, which is not the same as a NUL character
+                        let symbol = if let Some(next_ch) = self.char_iter.peek().copied() {
+                            let next_ch = next_ch as u32;
+                            if let Some(symbol) = Lexer::get_alphabet_index(next_ch) {
+                                Some(symbol)
+                            } else {
+                                return Err(LexerError::InvalidChar {
+                                    bad_ch: next_ch
+                                });
+                            }
                         } else {
-                            return Err(LexerError::InvalidChar {
-                                bad_ch: next_ch
-                            });
+                            None
                         };
                         match (state, symbol) {
                             #( #automaton_cases, )*
-- 
2.43.0


From e5beac8918bad0ea649cdc72da943ae3cc77714f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:39 +0000
Subject: [PATCH 10/13] fix: the entry non-terminal is filled into the C++ LL
 parser

---
 lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl b/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl
index ee3e370..8d733c1 100644
--- a/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl
+++ b/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl
@@ -54,7 +54,7 @@ namespace parser
         std::stack<Symbol> parse_stack;
         Symbol end{SymbolKind::Terminal, static_cast<uint32_t>(lexer::TokenType::TK_EOF)};
         parse_stack.push(end);
-        Symbol entry{SymbolKind::NonTerminal, static_cast<uint32_t>({grammar_entry_non_terminal})};
+        Symbol entry{SymbolKind::NonTerminal, static_cast<uint32_t>(/*{grammar_entry_non_terminal}*/)};
         parse_stack.push(entry);
 
         while (parse_stack.size() > 0)
-- 
2.43.0


From fb7890ca319ce78fabd6edb04983e3f8fbaddb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:39 +0000
Subject: [PATCH 11/13] fix: the C++ LL table tells non-terminals apart by
 their enumerator

---
 lapex-cpp-codegen/src/ll_parser/mod.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lapex-cpp-codegen/src/ll_parser/mod.rs b/lapex-cpp-codegen/src/ll_parser/mod.rs
index 665a047..a6b37f8 100644
--- a/lapex-cpp-codegen/src/ll_parser/mod.rs
+++ b/lapex-cpp-codegen/src/ll_parser/mod.rs
@@ -153,12 +153,9 @@ impl<'parser> CodeWriter<'parser> {
     fn write_table_switch(&self, output: &mut dyn Write) -> Result<(), Error> {
         writeln!(output, "switch(non_terminal.identifier) {{")?;
         for non_terminal in self.grammar.non_terminals() {
-            let non_terminal_index = if let Symbol::NonTerminal(i) = non_terminal {
-                i
-            } else {
-                unreachable!()
-            };
-            writeln!(output, "case {}: {{", non_terminal_index)?;
+            write!(output, "case static_cast<uint32_t>(NonTerminalType::")?;
+            self.write_non_terminal_enum_name(non_terminal, output)?;
+            writeln!(output, "): {{")?;
             writeln!(output, "switch (lookahead) {{")?;
             for (terminal, token_name) in self.grammar.terminals_with_names() {
                 let entry = self.parser_table.get_production(non_terminal, &terminal);
-- 
2.43.0


From bf0eade0b4ed83109aa3bd9a6876f57f1026a323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:39 +0000
Subject: [PATCH 12/13] fix: the C++ LL table has the entries for the end of
 the input

---
 lapex-cpp-codegen/src/ll_parser/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lapex-cpp-codegen/src/ll_parser/mod.rs b/lapex-cpp-codegen/src/ll_parser/mod.rs
index a6b37f8..fd665b1 100644
--- a/lapex-cpp-codegen/src/ll_parser/mod.rs
+++ b/lapex-cpp-codegen/src/ll_parser/mod.rs
@@ -150,6 +150,12 @@ impl<'parser> CodeWriter<'parser> {
         writeln!(output, "throw std::runtime_error(\"{}\");", message)
     }
 
+    fn lookaheads_with_names(&self) -> impl Iterator<Item = (Symbol, &str)> {
+        self.grammar
+            .terminals_with_names()
+            .chain(std::iter::once((Symbol::End, "EOF")))
+    }
+
     fn write_table_switch(&self, output: &mut dyn Write) -> Result<(), Error> {
         writeln!(output, "switch(non_terminal.identifier) {{")?;
         for non_terminal in self.grammar.non_terminals() {
@@ -157,7 +163,7 @@ impl<'parser> CodeWriter<'parser> {
             self.write_non_terminal_enum_name(non_terminal, output)?;
             writeln!(output, "): {{")?;
             writeln!(output, "switch (lookahead) {{")?;
-            for (terminal, token_name) in self.grammar.terminals_with_names() {
+            for (terminal, token_name) in self.lookaheads_with_names() {
                 let entry = self.parser_table.get_production(non_terminal, &terminal);
                 if let Some(symbols) = entry {
                     writeln!(output, "case lexer::TokenType::TK_{}: {{", token_name)?;
@@ -169,8 +175,7 @@ impl<'parser> CodeWriter<'parser> {
             writeln!(output, "default:")?;
             self.write_parser_table_error(
                 self.grammar.get_production_name(&non_terminal),
-                self.grammar
-                    .terminals_with_names()
+                self.lookaheads_with_names()
                     .filter(|(symbol, _)| {
                         self.parser_table
                             .get_production(non_terminal, symbol)
-- 
2.43.0


From f02a06f608d129931c97c19abf8bc23a2fd37d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:39 +0000
Subject: [PATCH 13/13] fix: the C++ goto table has the transition that accepts

---
 lapex-cpp-codegen/src/lr_parser/action_goto.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lapex-cpp-codegen/src/lr_parser/action_goto.rs b/lapex-cpp-codegen/src/lr_parser/action_goto.rs
index 1f3f884..6a0a561 100644
--- a/lapex-cpp-codegen/src/lr_parser/action_goto.rs
+++ b/lapex-cpp-codegen/src/lr_parser/action_goto.rs
@@ -191,7 +191,13 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
     pub fn write_goto_table(&self, output: &mut dyn Write) -> Result<(), std::io::Error> {
         writeln!(output, "switch (state) {{")?;
         for state in 0..self.parser_table.states() {
-            if self.parser_table.state_has_shift(state, self.grammar) {
+            let has_accept = self
+                .parser_table
+                .iter_state_non_terminals(state, self.grammar)
+                .filter_map(|(_, entry)| entry)
+                .flatten()
+                .any(|entry| matches!(entry, TableEntry::Accept));
+            if has_accept || self.parser_table.state_has_shift(state, self.grammar) {
                 writeln!(output, "case {}: {{", state)?;
                 writeln!(
                     output,
-- 
2.43.0

