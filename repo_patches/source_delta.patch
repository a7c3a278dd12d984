From 534bbb34c257c060e3a1ddb0d853f929ad276e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:23 +0000
Subject: [PATCH 01/19] fix: keep the repetition of a token apart from that of
 a rule with the same number

The caches of `*`, `+` and `?` helper rules were keyed by the bare symbol number,
so `x* X*` could reuse the helper of the wrong symbol.
---
 src/tool/visitor/grammar_visitor.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/tool/visitor/grammar_visitor.rs b/src/tool/visitor/grammar_visitor.rs
index 6836e31..4d54680 100644
--- a/src/tool/visitor/grammar_visitor.rs
+++ b/src/tool/visitor/grammar_visitor.rs
@@ -114,9 +114,9 @@ pub struct ProductionVisitor<'a> {
   block_cache: HashMap<Vec<Vec<ProductionItem>>, usize>,
 
 
-  star_cache: HashMap<usize, usize>,
-  plus_cache: HashMap<usize, usize>,
-  question_cache: HashMap<usize, usize>,
+  star_cache: HashMap<ProductionItem, usize>,
+  plus_cache: HashMap<ProductionItem, usize>,
+  question_cache: HashMap<ProductionItem, usize>,
 }
 
 impl<'a> ProductionVisitor<'a> {
@@ -199,7 +199,7 @@ impl SyntaxisVisitor for ProductionVisitor<'_> {
         // item * => item2 -> item item2 | epsilon
 
         // 查看是否已存在 item_id 即为 新产生式的 id。
-        if let Some(item_id) = self.star_cache.get(&id) {
+        if let Some(item_id) = self.star_cache.get(&item) {
           return Box::new(ProductionItem::NonTerminal(*item_id));
         }
 
@@ -214,14 +214,14 @@ impl SyntaxisVisitor for ProductionVisitor<'_> {
         self.grammar.productions.insert(p1);
         self.grammar.productions.insert(p2);
 
-        self.star_cache.insert(id, self.next_rule_id);
+        self.star_cache.insert(item, self.next_rule_id);
 
         self.next_rule_id += 1;
         return Box::new(item2);
       }
       else if let Some(_) = suffix.plus() {
         // item * => item2 -> item item2 | item
-        if let Some(item_id) = self.plus_cache.get(&id) {
+        if let Some(item_id) = self.plus_cache.get(&item) {
           return Box::new(ProductionItem::NonTerminal(*item_id));
         }
 
@@ -235,13 +235,13 @@ impl SyntaxisVisitor for ProductionVisitor<'_> {
         self.grammar.productions.insert(p1);
         self.grammar.productions.insert(p2);
 
-        self.plus_cache.insert(id, self.next_rule_id);
+        self.plus_cache.insert(item, self.next_rule_id);
         self.next_rule_id += 1;
         return Box::new(item2);
       }
       else {
         // item * => item2 -> item | epsilon
-        if let Some(item_id) = self.question_cache.get(&id) {
+        if let Some(item_id) = self.question_cache.get(&item) {
           return Box::new(ProductionItem::NonTerminal(*item_id));
         }
 
@@ -254,7 +254,7 @@ impl SyntaxisVisitor for ProductionVisitor<'_> {
         let p2 = Production::new(self.next_rule_id, &vec![item]);
         self.grammar.productions.insert(p1);
         self.grammar.productions.insert(p2);
-        self.question_cache.insert(id, self.next_rule_id);
+        self.question_cache.insert(item, self.next_rule_id);
         self.next_rule_id += 1;
         return Box::new(item2);
       }
-- 
2.43.0


From 5113b4d75bc3925457f953a72186379709de178b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:23 +0000
Subject: [PATCH 02/19] fix: put the end marker at the end of the input

Its offsets were taken after the cursor had been moved past the end.
---
 src/tool/templates/target/rust/lexer.tera | 4 ++--
 src/tool/v1/syntaxis_lexer.rs             | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tool/templates/target/rust/lexer.tera b/src/tool/templates/target/rust/lexer.tera
index 2def620..3d923a5 100644
--- a/src/tool/templates/target/rust/lexer.tera
+++ b/src/tool/templates/target/rust/lexer.tera
@@ -67,8 +67,8 @@ impl Lexer for {{name}}Lexer {
         channel: 0,
         text: "_STOP".to_owned(),
         token_index: self.token_index,
-        char_start_index: self.cursor,
-        char_stop_index: self.cursor,
+        char_start_index: self.input.len(),
+        char_stop_index: self.input.len(),
       });
     }
     let mut len = 0;
diff --git a/src/tool/v1/syntaxis_lexer.rs b/src/tool/v1/syntaxis_lexer.rs
index cdeb40c..26f1ce1 100644
--- a/src/tool/v1/syntaxis_lexer.rs
+++ b/src/tool/v1/syntaxis_lexer.rs
@@ -90,8 +90,8 @@ impl Lexer for SyntaxisLexer {
         channel: 0,
         text: "_STOP".to_owned(),
         token_index: self.token_index,
-        char_start_index: self.cursor,
-        char_stop_index: self.cursor,
+        char_start_index: self.input.len(),
+        char_stop_index: self.input.len(),
       });
     }
     let mut len = 0;
-- 
2.43.0


From 37ebb2ac2b0ed834629e23db41982363bd5cbebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:23 +0000
Subject: [PATCH 03/19] fix: recognise a rule that is declared again

The check asked for a token of that name, so a repeated rule used up a number.
---
 src/tool/visitor/grammar_visitor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/visitor/grammar_visitor.rs b/src/tool/visitor/grammar_visitor.rs
index 4d54680..d385f60 100644
--- a/src/tool/visitor/grammar_visitor.rs
+++ b/src/tool/visitor/grammar_visitor.rs
@@ -93,7 +93,7 @@ impl SyntaxisVisitor for SymbolVisitor<'_> {
 
   fn visit_parser_rule(&mut self, ctx: &dyn ParserRuleContext) -> Box<dyn std::any::Any> {
     let name = &ctx.rule_ref().unwrap().symbol.text;
-    if self.grammar.vocabulary.is_terminal_name_defined(name) {
+    if self.grammar.vocabulary.is_nonterminal_name_defined(name) {
       println!("重复定义 rule: {}", name);
       return self.default_result();
     }
-- 
2.43.0


From 3c09ed69c8db4b9975bf4ec2098016ae6bf4978d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:23 +0000
Subject: [PATCH 04/19] fix: look past empty rules for the first and last token
 of a node

A node whose first or last child derives nothing had no start or stop token,
and get_text returned the empty text for it.
---
 src/runtime/ast/rule_context.rs | 52 +++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/src/runtime/ast/rule_context.rs b/src/runtime/ast/rule_context.rs
index 9be510c..5a1be0e 100644
--- a/src/runtime/ast/rule_context.rs
+++ b/src/runtime/ast/rule_context.rs
@@ -35,43 +35,51 @@ impl RuleContext {
   pub fn get_rule_index(&self) -> usize { self.rule_index }
 
   pub fn get_first_terminal(&self) -> Option<&TerminalContext> { 
-    if self.children.len() <= 0 { return None }
-    match &self.children[0] {
-      ASTContext::Terminal(ctx) => Some(ctx),
-      ASTContext::Rule(ctx) => ctx.get_first_terminal(),
-      ASTContext::Error(_) => None,
+    match self.get_first_leaf() {
+      Some(ASTContext::Terminal(ctx)) => Some(ctx),
+      _ => None,
     }
-
   }
 
   pub fn get_last_terminal(&self) -> Option<&TerminalContext> { 
-    if self.children.len() <= 0 { return None }
-    match &self.children.last().unwrap() {
-      ASTContext::Terminal(ctx) => Some(ctx),
-      ASTContext::Rule(ctx) => ctx.get_last_terminal(),
-      ASTContext::Error(_) => None,
+    match self.get_last_leaf() {
+      Some(ASTContext::Terminal(ctx)) => Some(ctx),
+      _ => None,
     }
   }
 
   pub fn get_start_token(&self) -> Option<Token> {
-    if self.children.len() <= 0 { return None }
-    match &self.children[0] {
-      ASTContext::Terminal(ctx) => Some(ctx.symbol.clone()),
-      ASTContext::Rule(ctx) => ctx.get_start_token(),
-      ASTContext::Error(ctx) => Some(ctx.symbol.clone()),
+    match self.get_first_leaf() {
+      Some(ASTContext::Terminal(ctx)) => Some(ctx.symbol.clone()),
+      Some(ASTContext::Error(ctx)) => Some(ctx.symbol.clone()),
+      _ => None,
     }
-
   }
 
   pub fn get_stop_token(&self) -> Option<Token> {
-    if self.children.len() <= 0 { return None }
-    match self.children.last().unwrap() {
-      ASTContext::Terminal(ctx) => Some(ctx.symbol.clone()),
-      ASTContext::Rule(ctx) => ctx.get_stop_token(),
-      ASTContext::Error(ctx) => Some(ctx.symbol.clone()),
+    match self.get_last_leaf() {
+      Some(ASTContext::Terminal(ctx)) => Some(ctx.symbol.clone()),
+      Some(ASTContext::Error(ctx)) => Some(ctx.symbol.clone()),
+      _ => None,
     }
   }
 
+  // 第一个叶子节点，跳过空的 rule
+  fn get_first_leaf(&self) -> Option<&ASTContext> {
+    self.children.iter().find_map(|child| match child {
+      ASTContext::Rule(ctx) => ctx.get_first_leaf(),
+      leaf => Some(leaf),
+    })
+  }
+
+  // 最后一个叶子节点，跳过空的 rule
+  fn get_last_leaf(&self) -> Option<&ASTContext> {
+    self.children.iter().rev().find_map(|child| match child {
+      ASTContext::Rule(ctx) => ctx.get_last_leaf(),
+      leaf => Some(leaf),
+    })
+  }
+
   pub fn get_terminal(&self, token_type: usize, i: usize) -> Option<&TerminalContext> {
     let tokens = self.get_terminals(token_type);
     if i < tokens.len() { Some(&tokens[i]) } else { None }
-- 
2.43.0


From 8a528e2a3730293185992291edcfed0ae6f8848c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:23 +0000
Subject: [PATCH 05/19] fix: escape everything that a template literal in a
 page cannot contain

`${...}` was evaluated, `</script>` ended the page's script, and CR and NUL were changed.
---
 src/tool/gui/ast_drawer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tool/gui/ast_drawer.rs b/src/tool/gui/ast_drawer.rs
index ec55cc6..a4ca80c 100644
--- a/src/tool/gui/ast_drawer.rs
+++ b/src/tool/gui/ast_drawer.rs
@@ -25,7 +25,9 @@ impl ASTDrawer {
   }
 
   fn escape(s: &str) -> String {
-    s.replace("\\", "\\\\").replace("`", "\\`")
+    // $ 会开始一个替换，< 可能结束 script 标签，\r 会被规范化为 \n，\0 会被替换
+    s.replace("\\", "\\\\").replace("`", "\\`").replace("$", "\\$")
+      .replace("<", "\\x3c").replace("\r", "\\r").replace("\0", "\\x00")
   }
 
   fn dump(ast: &RuleContext) -> String {
-- 
2.43.0


From 1616d80d77a255bef18c2451055f8ff756c08e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:23 +0000
Subject: [PATCH 06/19] fix: separate rule names when printing a grammar

---
 src/tool/grammar/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/grammar/mod.rs b/src/tool/grammar/mod.rs
index cc4aa36..4c14692 100644
--- a/src/tool/grammar/mod.rs
+++ b/src/tool/grammar/mod.rs
@@ -235,7 +235,7 @@ impl Display for Grammar {
       for item in production.right.iter() {
         match item {
           ProductionItem::NonTerminal(id) => {
-            write!(f, "{}", self.vocabulary.get_nonterminal_name_with_default(*id))?
+            write!(f, " {}", self.vocabulary.get_nonterminal_name_with_default(*id))?
           },
           ProductionItem::Terminal(id) => {
             let name = self.vocabulary.get_terminal_name(*id);
-- 
2.43.0


From 0a6d7eb5f953a57a4cb4ec38f7421a4428f2d443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:23 +0000
Subject: [PATCH 07/19] fix: return the self-hosted contexts from the
 self-hosted parser

Its entry points returned the contexts of the bootstrap front end, whose token
numbers differ, so their accessors found the wrong tokens or none.
---
 src/tool/v1/syntaxis_parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tool/v1/syntaxis_parser.rs b/src/tool/v1/syntaxis_parser.rs
index f8d4991..3431729 100644
--- a/src/tool/v1/syntaxis_parser.rs
+++ b/src/tool/v1/syntaxis_parser.rs
@@ -1,6 +1,8 @@
 use std::{collections::HashMap, rc::Rc};
 
-use crate::{runtime::{token::Token, ast::{rule_context::RuleContext, terminal_context::TerminalContext, ast_context::ASTContext}, vocabulary::Vocabulary}, tool::{grammar::{Production, ProductionItem}, syntaxis::syntaxis_context::{RuleListContext, ParserRuleContext, BlockContext, AlternativeContext, EpsilonContext, ElementContext, EbnfSuffixContext, LexerRuleContext, RegularContext}}};
+use crate::{runtime::{token::Token, ast::{rule_context::RuleContext, terminal_context::TerminalContext, ast_context::ASTContext}, vocabulary::Vocabulary}, tool::grammar::{Production, ProductionItem}};
+
+use super::syntaxis_context::{RuleListContext, ParserRuleContext, BlockContext, AlternativeContext, EpsilonContext, ElementContext, EbnfSuffixContext, LexerRuleContext, RegularContext};
 
 
 
-- 
2.43.0


From 5523929d6cdaebe871911286375b945bab356ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:23 +0000
Subject: [PATCH 08/19] fix: make a string literal's token match exactly the
 literal's text

Only + and * were escaped for the regular expression, and escapes were decoded
one after the other, so that \\\\n became a line feed.
---
 src/tool/visitor/lexer_rule_visitor.rs | 29 +++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/tool/visitor/lexer_rule_visitor.rs b/src/tool/visitor/lexer_rule_visitor.rs
index 67d695d..91bbef6 100644
--- a/src/tool/visitor/lexer_rule_visitor.rs
+++ b/src/tool/visitor/lexer_rule_visitor.rs
@@ -82,11 +82,7 @@ impl SyntaxisVisitor for StringLiteralVisitor {
 
 
       // abc  ab\n
-      let literal = &name[1..name.len()-1]
-        .replace("\\n", "\n").replace("\\t", "\t").replace("\\\\", "\\")
-        .replace("\\r", "\r").replace("\\'", "\'").replace("+", "\\+")
-        .replace("*", "\\*")
-      ;
+      let literal = StringLiteralVisitor::regular_escape(&name[1..name.len()-1]);
 
       self.data.push( LexerRuleData {token_type: self.next_token_type, token_name: format!("T_{}", self.next_token_type), regex: format!("^({})", literal) });
       self.next_token_type += 1;
@@ -96,6 +92,29 @@ impl SyntaxisVisitor for StringLiteralVisitor {
 }
 
 impl StringLiteralVisitor {
+  // 将字符串字面量的内容转义为识别它的正则表达式
+  fn regular_escape(content: &str) -> String {
+    let mut result = String::new();
+    let mut chars = content.chars();
+    while let Some(c) = chars.next() {
+      let literal = match c {
+        '\\' => match chars.next() {
+          Some('n') => '\n', 
+          Some('t') => '\t', 
+          Some('r') => '\r', 
+          Some(c @ ('\\' | '\'')) => c,
+
+          // 其他转义直接交给正则表达式处理
+          Some(c) => { result.push('\\'); result.push(c); continue; },
+          None => '\\',
+        },
+        c => c,
+      };
+      result += &regex::escape(&literal.to_string());
+    }
+    result
+  }
+
   pub fn new() -> Self {
     Self {
       data: Vec::new(),
-- 
2.43.0


From deeb3776dfdc14bc53354712af7c676c9d4c8f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:23 +0000
Subject: [PATCH 09/19] fix: spell the name of the QUESTION token

---
 src/tool/syntaxis/syntaxis_lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/syntaxis/syntaxis_lexer.rs b/src/tool/syntaxis/syntaxis_lexer.rs
index 00f6db8..de1d428 100644
--- a/src/tool/syntaxis/syntaxis_lexer.rs
+++ b/src/tool/syntaxis/syntaxis_lexer.rs
@@ -72,7 +72,7 @@ impl SyntaxisLexer {
 
     let token_names = vec![
       "_START", "_STOP", "LINE_COMMENT", "BLOCK_COMMENT", "WS", "FRAGMENT", "TOKEN_REF",
-      "RULE_REF", "COLON", "OR", "SEMI", "STAR", "PLUS", "QUEStION", "DOT",
+      "RULE_REF", "COLON", "OR", "SEMI", "STAR", "PLUS", "QUESTION", "DOT",
       "NOT", "LPAREN", "RPAREN", "POUND", "STRING_LITERAL", "RANGE", "REGULAR_LITERAL", "EPSILON"
     ];
 
-- 
2.43.0


From 641f38c3171000a5a4963e755419264ef12754a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:23 +0000
Subject: [PATCH 10/19] fix: generate lexers that compile without a WHITE_SPACE
 token

---
 src/tool/templates/target/rust/lexer.tera | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/templates/target/rust/lexer.tera b/src/tool/templates/target/rust/lexer.tera
index 3d923a5..df26549 100644
--- a/src/tool/templates/target/rust/lexer.tera
+++ b/src/tool/templates/target/rust/lexer.tera
@@ -129,7 +129,7 @@ impl Lexer for {{name}}Lexer {
   fn scan_all_on_channel_tokens(&mut self, channel: usize) -> Vec<Token> {
     let mut result = Vec::new();
     while let Ok(token) = self.scan() {
-      if token.token_type == {{name}}Lexer::WHITE_SPACE { continue; }
+      if token.token_name == "WHITE_SPACE" { continue; }
       if token.channel == channel {
         result.push(token);
       }
-- 
2.43.0


From d58c3ea08e1764bd2eb4eb5088fff28b5455cb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:23 +0000
Subject: [PATCH 11/19] fix: escape the name in a page's title

---
 src/tool/templates/gui/ast.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/templates/gui/ast.html b/src/tool/templates/gui/ast.html
index 8e25d35..cb2ceb4 100644
--- a/src/tool/templates/gui/ast.html
+++ b/src/tool/templates/gui/ast.html
@@ -5,7 +5,7 @@
   <meta charset="UTF-8">
   <meta http-equiv="X-UA-Compatible" content="IE=edge">
   <meta name="viewport" content="width=device-width, initial-scale=1.0">
-  <title>{{ name }}</title>
+  <title>{{ name | escape }}</title>
   <style>
     * {
       margin: 0 0;
-- 
2.43.0


From d4a2710ff5d6e34ff61ef860e6e01715f1e8bb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:23 +0000
Subject: [PATCH 12/19] fix: write the whole page or fail

---
 src/tool/gui/ast_drawer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/gui/ast_drawer.rs b/src/tool/gui/ast_drawer.rs
index a4ca80c..84f3b9d 100644
--- a/src/tool/gui/ast_drawer.rs
+++ b/src/tool/gui/ast_drawer.rs
@@ -58,7 +58,7 @@ impl ASTDrawer {
     
 
     let mut file = std::fs::File::create(filename).unwrap();
-    file.write(result.as_bytes()).unwrap();
+    file.write_all(result.as_bytes()).unwrap();
   }
 }
 
-- 
2.43.0


From 560e2d110eb0458eaa9129f910b013aa51c640ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:23 +0000
Subject: [PATCH 13/19] fix: offer the aggregated result itself before visiting
 a child

`&result` coerced to a reference to the box, so no implementation could downcast it.
---
 src/tool/syntaxis/syntaxis_visitor.rs | 2 +-
 src/tool/v1/syntaxis_visitor.rs       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool/syntaxis/syntaxis_visitor.rs b/src/tool/syntaxis/syntaxis_visitor.rs
index e241f28..024f8db 100644
--- a/src/tool/syntaxis/syntaxis_visitor.rs
+++ b/src/tool/syntaxis/syntaxis_visitor.rs
@@ -71,7 +71,7 @@ pub trait SyntaxisVisitor {
   fn visit_children(&mut self, ctx: &RuleContext) -> Box<dyn Any> {
     let mut result = self.default_result();
     for child in ctx.children.iter() {
-      if ! self.should_visit_next_child(ctx, &result) { break; }
+      if ! self.should_visit_next_child(ctx, result.as_ref()) { break; }
 
       let child_result = match child {
         ASTContext::Terminal(ctx) => self.visit_terminal(ctx),
diff --git a/src/tool/v1/syntaxis_visitor.rs b/src/tool/v1/syntaxis_visitor.rs
index e241f28..024f8db 100644
--- a/src/tool/v1/syntaxis_visitor.rs
+++ b/src/tool/v1/syntaxis_visitor.rs
@@ -71,7 +71,7 @@ pub trait SyntaxisVisitor {
   fn visit_children(&mut self, ctx: &RuleContext) -> Box<dyn Any> {
     let mut result = self.default_result();
     for child in ctx.children.iter() {
-      if ! self.should_visit_next_child(ctx, &result) { break; }
+      if ! self.should_visit_next_child(ctx, result.as_ref()) { break; }
 
       let child_result = match child {
         ASTContext::Terminal(ctx) => self.visit_terminal(ctx),
-- 
2.43.0


From 4d5cb2e7452681a2f03f0911f65115bae27ba6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:50 +0000
Subject: [PATCH 14/19] fix: label rules without children in a drawn tree

---
 src/tool/templates/gui/ast.html | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool/templates/gui/ast.html b/src/tool/templates/gui/ast.html
index cb2ceb4..ec46c7a 100644
--- a/src/tool/templates/gui/ast.html
+++ b/src/tool/templates/gui/ast.html
@@ -358,7 +358,7 @@
           .attr("stroke-opacity", 0);
 
         nodeEnter.append("title")
-        .text(d => d._children ? d.data.id: d.data.name);
+        .text(d => d.data.children ? d.data.id: d.data.name);
 
         nodeEnter.append("text")
           .attr("y", 0)
@@ -367,7 +367,7 @@
           .attr("cursor", d => d._children ? "pointer" : "default")
           .attr('fill', d => d._children ? "#333" : "#999")
           .attr("text-anchor", "middle")
-          .text(d => d._children ? d.data.name: d.data.text)
+          .text(d => d.data.children ? d.data.name: d.data.text)
           .on("pointerdown", (event, d) => {
             d.children = d.children ? null : d._children;
             update(d, d.x, d.y);
-- 
2.43.0


From 71ff4e32866b3c083fe0098e313b22e84336d3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:19 +0000
Subject: [PATCH 15/19] fix: decode characters given by number in string
 literals

---
 src/tool/visitor/lexer_rule_visitor.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/tool/visitor/lexer_rule_visitor.rs b/src/tool/visitor/lexer_rule_visitor.rs
index 91bbef6..50bdebc 100644
--- a/src/tool/visitor/lexer_rule_visitor.rs
+++ b/src/tool/visitor/lexer_rule_visitor.rs
@@ -104,6 +104,15 @@ impl StringLiteralVisitor {
           Some('r') => '\r', 
           Some(c @ ('\\' | '\'')) => c,
 
+          // 字符编码 \u{41} 或者 \u{0x41}
+          Some('u') => {
+            let number: String = chars.by_ref().skip(1).take_while(|c| *c != '}').collect();
+            match u32::from_str_radix(number.trim_start_matches("0x"), 16).ok().and_then(char::from_u32) {
+              Some(c) => c,
+              None => { result += &format!("\\u{{{}}}", number); continue; },
+            }
+          },
+
           // 其他转义直接交给正则表达式处理
           Some(c) => { result.push('\\'); result.push(c); continue; },
           None => '\\',
-- 
2.43.0


From e46adc1501e92e975b4002012a162d4666e8eaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:45 +0000
Subject: [PATCH 16/19] fix: turn string literals in rules into tokens instead
 of panicking

StringLiteralToTokenVisitor ended in todo!() for every rule with a string
literal. The literal, quotes included, becomes the token's name, as the
production pass expects; its expression is the one StringLiteralVisitor builds.
---
 src/tool/visitor/grammar_visitor.rs    | 20 +++++++-------------
 src/tool/visitor/lexer_rule_visitor.rs |  2 +-
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/tool/visitor/grammar_visitor.rs b/src/tool/visitor/grammar_visitor.rs
index d385f60..8ede2c2 100644
--- a/src/tool/visitor/grammar_visitor.rs
+++ b/src/tool/visitor/grammar_visitor.rs
@@ -4,7 +4,7 @@ use std::collections::HashMap;
 
 use crate::tool::{grammar::{Grammar, ProductionItem, Production}, syntaxis::{syntaxis_visitor::SyntaxisVisitor, syntaxis_context::{ElementContext, LexerRuleContext, ParserRuleContext}}};
 
-use super::lexer_rule_visitor::LexerRuleData;
+use super::lexer_rule_visitor::{LexerRuleData, StringLiteralVisitor};
 
 /**
  * 第一遍 将所有的语法规则中的字符串字面量转换为 token
@@ -20,12 +20,6 @@ pub struct StringLiteralToTokenVisitor<'a> {
 }
 
 impl<'a> StringLiteralToTokenVisitor<'a> {
-  // 将字符串字面量转义为对应的实际字符串
-  fn escape(_input: &str) -> String { todo!() }
-  
-  // 将字符串字面量转义为识别它的正则表达式
-  fn regular_escape(_input: &str) -> String { todo!() }
-
   pub fn new(grammar: &'a mut Grammar, first_token_id: usize) -> Self {
     Self { grammar, next_token_id: first_token_id, data: Vec::new(), }
   }
@@ -34,18 +28,18 @@ impl<'a> StringLiteralToTokenVisitor<'a> {
 impl SyntaxisVisitor for StringLiteralToTokenVisitor<'_> {
   fn visit_element(&mut self, ctx: &dyn ElementContext) -> Box<dyn std::any::Any> {
     if let Some(value) = ctx.string_literal() {
-      // 需要进行相关转义处理
-      let text = StringLiteralToTokenVisitor::escape(&value.symbol.text);// 为了防止字符串的内容和某个 token 同名, 因此不删除引号
+      // 为了防止字符串的内容和某个 token 同名, 因此不删除引号
+      let text = &value.symbol.text;
 
       // 检查该字符串是否已经定义
-      if self.grammar.vocabulary.is_terminal_name_defined(&text) { return self.default_result(); } 
+      if self.grammar.vocabulary.is_terminal_name_defined(text) { return self.default_result(); } 
       
       // 定义之
-      self.grammar.vocabulary.add_terminal(self.next_token_id, &text);
+      self.grammar.vocabulary.add_terminal(self.next_token_id, text);
       
       // 将字符串对应的正则表达式放入 data 中，首先需要进行正则表达式的转义
-      let regular_string = StringLiteralToTokenVisitor::regular_escape(&value.symbol.text);
-      self.data.push(LexerRuleData { token_type: self.next_token_id, token_name: format!("_T_{}", self.next_token_id), regex: regular_string, });
+      let regular_string = StringLiteralVisitor::regular_escape(&text[1..text.len()-1]);
+      self.data.push(LexerRuleData { token_type: self.next_token_id, token_name: format!("_T_{}", self.next_token_id), regex: format!("^({})", regular_string), });
       self.next_token_id += 1;
     }
     self.default_result()
diff --git a/src/tool/visitor/lexer_rule_visitor.rs b/src/tool/visitor/lexer_rule_visitor.rs
index 50bdebc..28b3cf3 100644
--- a/src/tool/visitor/lexer_rule_visitor.rs
+++ b/src/tool/visitor/lexer_rule_visitor.rs
@@ -93,7 +93,7 @@ impl SyntaxisVisitor for StringLiteralVisitor {
 
 impl StringLiteralVisitor {
   // 将字符串字面量的内容转义为识别它的正则表达式
-  fn regular_escape(content: &str) -> String {
+  pub(super) fn regular_escape(content: &str) -> String {
     let mut result = String::new();
     let mut chars = content.chars();
     while let Some(c) = chars.next() {
-- 
2.43.0


From bbc520bb6634b80d1401bab07276f98aceb9d2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:46 +0000
Subject: [PATCH 17/19] fix: collect string literals inside groups as tokens
 too

The literal-to-token pass did not look into parenthesised groups, so building
the productions of such a rule panicked on the unknown token.
---
 src/tool/visitor/grammar_visitor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tool/visitor/grammar_visitor.rs b/src/tool/visitor/grammar_visitor.rs
index 8ede2c2..b35db17 100644
--- a/src/tool/visitor/grammar_visitor.rs
+++ b/src/tool/visitor/grammar_visitor.rs
@@ -41,8 +41,10 @@ impl SyntaxisVisitor for StringLiteralToTokenVisitor<'_> {
       let regular_string = StringLiteralVisitor::regular_escape(&text[1..text.len()-1]);
       self.data.push(LexerRuleData { token_type: self.next_token_id, token_name: format!("_T_{}", self.next_token_id), regex: format!("^({})", regular_string), });
       self.next_token_id += 1;
+      return self.default_result();
     }
-    self.default_result()
+    // 括号中也可能有字符串字面量
+    self.visit_children(ctx.as_rule())
   }
 }
 
-- 
2.43.0


From 1b5165c525ff70d897a5a072e9cfb5b35eb6458a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:29 +0000
Subject: [PATCH 18/19] fix: write unprintable characters of string literals as
 codes

A literal with \r or a raw carriage return put that character into the raw
string of the generated lexer, which then does not compile.
---
 src/tool/visitor/lexer_rule_visitor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tool/visitor/lexer_rule_visitor.rs b/src/tool/visitor/lexer_rule_visitor.rs
index 28b3cf3..c17afca 100644
--- a/src/tool/visitor/lexer_rule_visitor.rs
+++ b/src/tool/visitor/lexer_rule_visitor.rs
@@ -119,7 +119,9 @@ impl StringLiteralVisitor {
         },
         c => c,
       };
-      result += &regex::escape(&literal.to_string());
+      // 空白、控制字符等写成编码, 因为生成的源代码中不能直接出现(例如回车符)
+      if literal.is_ascii_graphic() || literal == ' ' { result += &regex::escape(&literal.to_string()); }
+      else { result += &format!("\\u{{{:x}}}", literal as u32); }
     }
     result
   }
-- 
2.43.0


From 389d89de6ed1c472c3aba7dab39d85c0fdc88875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:46 +0000
Subject: [PATCH 19/19] fix: generate lexers that compile whatever quotation
 marks a token rule contains

---
 src/tool/templates/target/rust/lexer.tera | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/templates/target/rust/lexer.tera b/src/tool/templates/target/rust/lexer.tera
index df26549..cc80612 100644
--- a/src/tool/templates/target/rust/lexer.tera
+++ b/src/tool/templates/target/rust/lexer.tera
@@ -32,7 +32,7 @@ impl {{name}}Lexer {
 
       // 这里也需要使用模板
       {% for token in tokens %}
-      Regex::new(r####"{{token.regex}}"####).unwrap(), // {{token.token_name}}{% endfor %}
+      Regex::new("{{token.regex | addslashes}}").unwrap(), // {{token.token_name}}{% endfor %}
     
     ];
     
-- 
2.43.0

