From 26201058834e4588913d31f16a2780d72b52df2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:28 +0000
Subject: [PATCH 01/71] fix: write the space before the last literal of a
 pragma

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 750846e..c6f16d4 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -369,7 +369,7 @@ impl NodePrinter<SolidityAST> for PragmaDirectivePrinter {
                             needs_space = false;
                         }
 
-                        if i < (v.len() - 1) && needs_space {
+                        if needs_space {
                             write_space(printer, stream);
                         }
                         write_token(printer, stream, s);
-- 
2.43.0


From ed7048d99ced18443edde49c74aaa9361568249d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:28 +0000
Subject: [PATCH 02/71] fix: separate the modifiers of a function with spaces

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index c6f16d4..85667f2 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -76,7 +76,7 @@ fn print_operator_helper(printer: &mut PrettyPrinter, stream: &mut dyn Write, no
     }
 }
 
-/// Helper function to write an array preceded by a space.
+/// Helper function to write an array with each element preceded by a space.
 ///
 /// # Abstract
 ///
@@ -91,9 +91,9 @@ fn print_space_and_array_helper(
     node: &SolidityAST,
 ) {
     if let Some(array) = node.as_array() {
-        if !array.is_empty() {
+        for element in array {
             write_space(printer, stream);
-            print_array_helper(printer, stream, factory, array);
+            traverse_sub_node_and_print(printer, stream, factory, element);
         }
     }
 }
-- 
2.43.0


From 0b56d60b075e1db305e4bd1b85c796a825ed3c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:28 +0000
Subject: [PATCH 03/71] fix: separate override specifiers of variables and
 modifiers from what precedes them

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 85667f2..95c6ad0 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -625,6 +625,7 @@ impl NodePrinter<SolidityAST> for VariableDeclarationPrinter {
         }
 
         if let Some(override_node) = node.get("overrides") {
+            write_space(printer, stream);
             traverse_sub_node_and_print(printer, stream, factory, override_node);
         }
 
@@ -1504,6 +1505,7 @@ impl NodePrinter<SolidityAST> for ModifierDefinitionPrinter {
         }
 
         if let Some(override_node) = node.get("overrides") {
+            write_space(printer, stream);
             traverse_sub_node_and_print(printer, stream, factory, override_node);
         }
 
-- 
2.43.0


From e3c95f3a4845ca8c9b714a260dc38b978b805262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:29 +0000
Subject: [PATCH 04/71] fix: print inline arrays with brackets and print empty
 tuples

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 31 +++++++++++---------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 95c6ad0..cc194a3 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1672,25 +1672,28 @@ impl NodePrinter<SolidityAST> for TupleExpressionPrinter {
         factory: &dyn NodePrinterFactory<SolidityAST>,
         node: &SolidityAST,
     ) {
+        let (open, close) = match node.get_bool_for_key("isInlineArray") {
+            Some(true) => ("[", "]"),
+            _ => ("(", ")"),
+        };
+
         if let Some(components) = node.get("components") {
             if let Some(components_array) = components.as_array() {
-                if !components_array.is_empty() {
-                    write_token(printer, stream, "(");
-                    let mut i: usize = 0;
-                    while i < components_array.len() {
-                        let value = components_array.get(i).unwrap();
-                        traverse_sub_node_and_print(printer, stream, factory, value);
-                        if i < (components_array.len() - 1) {
-                            write_token(printer, stream, ",");
-                            let next_node = components_array.get(i + 1).unwrap();
-                            if !next_node.is_null() {
-                                write_space(printer, stream);
-                            }
+                write_token(printer, stream, open);
+                let mut i: usize = 0;
+                while i < components_array.len() {
+                    let value = components_array.get(i).unwrap();
+                    traverse_sub_node_and_print(printer, stream, factory, value);
+                    if i < (components_array.len() - 1) {
+                        write_token(printer, stream, ",");
+                        let next_node = components_array.get(i + 1).unwrap();
+                        if !next_node.is_null() {
+                            write_space(printer, stream);
                         }
-                        i += 1;
                     }
-                    write_token(printer, stream, ")");
+                    i += 1;
                 }
+                write_token(printer, stream, close);
             }
         }
     }
-- 
2.43.0


From b4ddf2cab0542f2c8d648005f6b0f0ad8601c6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:29 +0000
Subject: [PATCH 05/71] fix: print index range accesses

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 31 ++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index cc194a3..af465d2 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1216,6 +1216,36 @@ impl NodePrinter<SolidityAST> for IndexAccessPrinter {
     }
 }
 
+struct IndexRangeAccessPrinter {}
+
+impl NodePrinter<SolidityAST> for IndexRangeAccessPrinter {
+    fn print_node(
+        &mut self,
+        printer: &mut PrettyPrinter,
+        stream: &mut dyn Write,
+        factory: &dyn NodePrinterFactory<SolidityAST>,
+        node: &SolidityAST,
+    ) {
+        if let Some(base_expression) = node.get("baseExpression") {
+            traverse_sub_node_and_print(printer, stream, factory, base_expression);
+        }
+
+        write_token(printer, stream, "[");
+
+        if let Some(start_expression) = node.get("startExpression") {
+            traverse_sub_node_and_print(printer, stream, factory, start_expression);
+        }
+
+        write_token(printer, stream, ":");
+
+        if let Some(end_expression) = node.get("endExpression") {
+            traverse_sub_node_and_print(printer, stream, factory, end_expression);
+        }
+
+        write_token(printer, stream, "]");
+    }
+}
+
 struct IfStatementPrinter {}
 
 impl NodePrinter<SolidityAST> for IfStatementPrinter {
@@ -2656,6 +2686,7 @@ impl NodePrinterFactory<SolidityAST> for SolidityNodePrinterFactory {
                 "IfStatement" => Box::new(IfStatementPrinter {}),
                 "ImportDirective" => Box::new(ImportDirectivePrinter {}),
                 "IndexAccess" => Box::new(IndexAccessPrinter {}),
+                "IndexRangeAccess" => Box::new(IndexRangeAccessPrinter {}),
                 "InheritanceSpecifier" => Box::new(InheritanceSpecifierPrinter {}),
                 "InlineAssembly" => Box::new(InlineAssemblyPrinter {}),
                 "Literal" => Box::new(LiteralPrinter {}),
-- 
2.43.0


From 31cd78bfd7a67cbb95638a261f8439c0bf480ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:29 +0000
Subject: [PATCH 06/71] fix: write the semicolons of for statements without
 initialization or condition

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index af465d2..989cb05 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1795,12 +1795,14 @@ impl NodePrinter<SolidityAST> for ForStatementPrinter {
         write_token(printer, stream, "for(");
         if let Some(initialization_node) = node.get("initializationExpression") {
             traverse_sub_node_and_print(printer, stream, factory, initialization_node);
+        } else {
+            write_token(printer, stream, ";");
         }
         if let Some(condition_node) = node.get("condition") {
             write_space(printer, stream);
             traverse_sub_node_and_print(printer, stream, factory, condition_node);
-            write_token(printer, stream, ";");
         }
+        write_token(printer, stream, ";");
         if let Some(loop_expression_node) = node.get("loopExpression") {
             let mut printer_settings = factory.get_settings().clone();
             printer_settings.set_value_for_key(
-- 
2.43.0


From 0bb881ca221af8c12ea663763504e1d1d0fefe3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:29 +0000
Subject: [PATCH 07/71] fix: write returns for a try call only when the success
 clause has parameters

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 989cb05..50477ca 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1122,16 +1122,9 @@ impl NodePrinter<SolidityAST> for FunctionCallPrinter {
         printer: &mut PrettyPrinter,
         stream: &mut dyn Write,
         _factory: &dyn NodePrinterFactory<SolidityAST>,
-        node: &SolidityAST,
+        _node: &SolidityAST,
     ) {
         write_token(printer, stream, ")");
-
-        if let Some(try_call_bool) = node.get_bool_for_key("tryCall") {
-            if try_call_bool {
-                write_space(printer, stream);
-                write_token(printer, stream, "returns");
-            }
-        }
     }
 }
 
@@ -2324,6 +2317,9 @@ impl NodePrinter<SolidityAST> for TryStatementPrinter {
                 if i >= 1 {
                     write_token(printer, stream, "catch");
                     write_space(printer, stream);
+                } else if clause.get("parameters").is_some() {
+                    write_token(printer, stream, "returns");
+                    write_space(printer, stream);
                 }
                 traverse_sub_node_and_print(printer, stream, factory, clause);
                 if i < (clauses_array.len()) {
-- 
2.43.0


From ca5ac8569922acfae9891bc0791829bd86ac42aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:29 +0000
Subject: [PATCH 08/71] fix: do not print a visibility for free functions

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 50477ca..241273d 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -723,7 +723,10 @@ impl NodePrinter<SolidityAST> for FunctionDefinitionPrinter {
             traverse_sub_node_and_print(printer, stream, factory, parameters);
         }
 
-        if let Some(visibility) = node.get_str_for_key("visibility") {
+        // Free functions do not accept a visibility specifier.
+        let is_free_function = node.get_str_for_key("kind") == Some("freeFunction");
+
+        if let (Some(visibility), false) = (node.get_str_for_key("visibility"), is_free_function) {
             write_space(printer, stream);
             write_token(printer, stream, visibility);
             // if visibility != "internal" {
-- 
2.43.0


From 0fa766032abb54aab2ebc7fb0458665890571f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:29 +0000
Subject: [PATCH 09/71] fix: print assembly variables without a value and
 assembly functions with several results

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 241273d..9a48b4e 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1921,12 +1921,12 @@ impl NodePrinter<SolidityAST> for YulVariableDeclarationPrinter {
         if let Some(variables_node) = node.get("variables") {
             if let Some(variables_array) = variables_node.as_array() {
                 print_array_helper(printer, stream, factory, variables_array);
-                write_space(printer, stream);
             }
         }
-        write_token(printer, stream, ":=");
-        write_space(printer, stream);
         if let Some(value_node) = node.get("value") {
+            write_space(printer, stream);
+            write_token(printer, stream, ":=");
+            write_space(printer, stream);
             traverse_sub_node_and_print(printer, stream, factory, value_node);
         }
     }
@@ -2546,15 +2546,7 @@ impl NodePrinter<SolidityAST> for YulFunctionDefinitionPrinter {
             if !return_vars_array.is_empty() {
                 write_token(printer, stream, "->");
                 write_space(printer, stream);
-                if return_vars_array.len() > 1 {
-                    write_token(printer, stream, "(");
-                }
-
                 print_array_helper(printer, stream, factory, return_vars_array);
-
-                if return_vars_array.len() > 1 {
-                    write_token(printer, stream, ")");
-                }
                 write_space(printer, stream);
             }
         }
-- 
2.43.0


From d5c07d32b0eda61994c54fdb3d3e1e19dbeb71c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:29 +0000
Subject: [PATCH 10/71] fix: print the state mutability and return types of
 function types

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 9a48b4e..eda1d09 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -182,7 +182,11 @@ fn print_return_parameters_helper(
     factory: &dyn NodePrinterFactory<SolidityAST>,
     node: &SolidityAST,
 ) {
-    if let Some(return_parameters_node) = node.get("returnParameters") {
+    // Function type nodes have a returnParameterTypes node instead.
+    let return_parameters = node
+        .get("returnParameters")
+        .or_else(|| node.get("returnParameterTypes"));
+    if let Some(return_parameters_node) = return_parameters {
         if let Some(parameters_array) = return_parameters_node.get_array_for_key("parameters") {
             if !parameters_array.is_empty() {
                 write_space(printer, stream);
@@ -2082,6 +2086,12 @@ impl NodePrinter<SolidityAST> for FunctionTypeNamePrinter {
                 write_token(printer, stream, visibility_str);
             }
         }
+        if let Some(state_mutability) = node.get_str_for_key("stateMutability") {
+            if state_mutability != "nonpayable" {
+                write_space(printer, stream);
+                write_token(printer, stream, state_mutability);
+            }
+        }
 
         print_return_parameters_helper(printer, stream, factory, node);
     }
-- 
2.43.0


From 4221185953e647d015e29556f165f76ebfa602a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:29 +0000
Subject: [PATCH 11/71] fix: print the documentation of structs, enums, events
 and errors

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index eda1d09..ff86f82 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -482,6 +482,7 @@ impl NodePrinter<SolidityAST> for StructDefinitionPrinter {
         factory: &dyn NodePrinterFactory<SolidityAST>,
         node: &SolidityAST,
     ) {
+        print_documentation_helper(printer, stream, factory, node);
         write_token(printer, stream, "struct");
         write_space(printer, stream);
 
@@ -1769,6 +1770,7 @@ impl NodePrinter<SolidityAST> for ErrorDefinitionPrinter {
         factory: &dyn NodePrinterFactory<SolidityAST>,
         node: &SolidityAST,
     ) {
+        print_documentation_helper(printer, stream, factory, node);
         write_token(printer, stream, "error");
         write_space(printer, stream);
         if let Some(name_str) = node.get_str_for_key("name") {
@@ -2107,6 +2109,7 @@ impl NodePrinter<SolidityAST> for EventDefinitionPrinter {
         factory: &dyn NodePrinterFactory<SolidityAST>,
         node: &SolidityAST,
     ) {
+        print_documentation_helper(printer, stream, factory, node);
         write_token(printer, stream, "event");
         write_space(printer, stream);
         print_name_helper(printer, stream, node);
@@ -2152,6 +2155,7 @@ impl NodePrinter<SolidityAST> for EnumDefinitionPrinter {
         factory: &dyn NodePrinterFactory<SolidityAST>,
         node: &SolidityAST,
     ) {
+        print_documentation_helper(printer, stream, factory, node);
         write_token(printer, stream, "enum");
         write_space(printer, stream);
         print_name_helper(printer, stream, node);
-- 
2.43.0


From 8566df4a89ac5657da10b1f35a3e4fa1e99ac271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:29 +0000
Subject: [PATCH 12/71] fix: print the names of mapping parameters

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 26 ++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index ff86f82..270ad13 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -61,6 +61,28 @@ fn print_name_helper(printer: &mut PrettyPrinter, stream: &mut dyn Write, node:
     }
 }
 
+/// Helper function to write a space and a name, if the node has a non-empty value for a key.
+///
+/// # Arguments
+///
+/// * `stream` - The [`Write`] object that will receive the formatted output.
+/// * `node` - The [`SolidityAST`] node.
+/// * `printer` - The [`PrettyPrinter`] object that will write to `stream`.
+/// * `key` - The key that may contain the name.
+fn print_optional_name_helper(
+    printer: &mut PrettyPrinter,
+    stream: &mut dyn Write,
+    node: &SolidityAST,
+    key: &str,
+) {
+    if let Some(name) = node.get_str_for_key(key) {
+        if !name.is_empty() {
+            write_space(printer, stream);
+            write_token(printer, stream, name);
+        }
+    }
+}
+
 /// Helper function to print an operator if a node has a value for the 'operator' key.
 ///
 /// # Abstract
@@ -563,6 +585,8 @@ impl NodePrinter<SolidityAST> for MappingPrinter {
             traverse_sub_node_and_print(printer, stream, factory, key);
         }
 
+        print_optional_name_helper(printer, stream, node, "keyName");
+
         write_space(printer, stream);
         write_token(printer, stream, "=>");
         write_space(printer, stream);
@@ -571,6 +595,8 @@ impl NodePrinter<SolidityAST> for MappingPrinter {
             traverse_sub_node_and_print(printer, stream, factory, value);
         }
 
+        print_optional_name_helper(printer, stream, node, "valueName");
+
         write_token(printer, stream, ")");
     }
 }
-- 
2.43.0


From 5ad036cfcdee37524c550922bd8e4f21652b6796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:29 +0000
Subject: [PATCH 13/71] fix: end file level variable declarations with a
 semicolon

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 270ad13..91b46d4 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -341,6 +341,9 @@ impl NodePrinter<SolidityAST> for SourceUnitPrinter {
                     if let Some(node) = node_array.get(i) {
                         write_indent(printer, stream);
                         traverse_sub_node_and_print(printer, stream, factory, node);
+                        if node.get_str_for_key("nodeType") == Some("VariableDeclaration") {
+                            write_token(printer, stream, ";");
+                        }
                         if i < (node_array.len() - 1) {
                             write_newline(printer, stream);
                             write_newline(printer, stream);
-- 
2.43.0


From 9a310f8328a26f56166b1ca90fd6c094c85f28d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:29 +0000
Subject: [PATCH 14/71] fix: print using directives for every type and
 functions listed without an operator

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 91b46d4..8fb6659 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1488,6 +1488,9 @@ impl NodePrinter<SolidityAST> for UsingForDirectivePrinter {
                         factory,
                         function_list_array,
                         |p, s, _f, n| {
+                            if let Some(function) = n.get("function") {
+                                print_name_helper(p, s, function);
+                            }
                             if let Some(definition) = n.get("definition") {
                                 if let Some(name) = definition.get_str_for_key("name") {
                                     write_token(p, s, name);
@@ -1518,6 +1521,8 @@ impl NodePrinter<SolidityAST> for UsingForDirectivePrinter {
         write_space(printer, stream);
         if let Some(type_name) = node.get("typeName") {
             traverse_sub_node_and_print(printer, stream, factory, type_name);
+        } else {
+            write_token(printer, stream, "*");
         }
 
         if let Some(global_bool) = node.get_bool_for_key("global") {
-- 
2.43.0


From 0989849f70af29e0518483a01323d42b8a39a961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:29 +0000
Subject: [PATCH 15/71] fix: end modifiers without a body with a semicolon

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 8fb6659..a047f9f 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1577,6 +1577,8 @@ impl NodePrinter<SolidityAST> for ModifierDefinitionPrinter {
         if let Some(body) = node.get("body") {
             write_space(printer, stream);
             traverse_sub_node_and_print(printer, stream, factory, body);
+        } else {
+            write_token(printer, stream, ";");
         }
     }
 }
-- 
2.43.0


From d87d436bb52c11dc75431ca9fc96614f1ecee3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:29 +0000
Subject: [PATCH 16/71] fix: print every elementary type name expression with
 its type

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index a047f9f..74a0166 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1714,16 +1714,12 @@ impl NodePrinter<SolidityAST> for ElementaryTypeNameExpressionPrinter {
         factory: &dyn NodePrinterFactory<SolidityAST>,
         node: &SolidityAST,
     ) {
-        // Not sure if this is the correct way to handle this node.
-        if let Some(pure) = node.get_bool_for_key("isPure") {
-            if pure {
-                if let Some(type_name) = node.get("typeName") {
-                    if let Some(mutability) = type_name.get_str_for_key("stateMutability") {
-                        write_token(printer, stream, mutability);
-                    } else {
-                        traverse_sub_node_and_print(printer, stream, factory, type_name);
-                    }
-                }
+        // The expression `payable(...)` has the type name `address` with payable mutability.
+        if let Some(type_name) = node.get("typeName") {
+            if type_name.get_str_for_key("stateMutability") == Some("payable") {
+                write_token(printer, stream, "payable");
+            } else {
+                traverse_sub_node_and_print(printer, stream, factory, type_name);
             }
         }
     }
-- 
2.43.0


From 142f863df5d36e355f9aa9fb846c9903937aeac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:36 +0000
Subject: [PATCH 17/71] fix: escape the contents of string literals

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 129 ++++++++++---------
 1 file changed, 70 insertions(+), 59 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 74a0166..0b4afb1 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -220,63 +220,66 @@ fn print_return_parameters_helper(
     }
 }
 
+/// Write `bytes` as the content of a Solidity string literal, using escape sequences for everything
+/// other than printable ASCII characters.
+///
+/// # Arguments
+///
+/// * `bytes` - The bytes of the string.
+fn escape_bytes(bytes: &[u8]) -> String {
+    let mut escaped = String::new();
+
+    for byte in bytes {
+        match byte {
+            b'\t' => escaped.push_str("\\t"),
+            b'\n' => escaped.push_str("\\n"),
+            b'\r' => escaped.push_str("\\r"),
+            b'"' => escaped.push_str("\\\""),
+            b'\\' => escaped.push_str("\\\\"),
+            32..=126 => escaped.push(*byte as char),
+            _ => escaped += format!("\\x{byte:02x}").as_str(),
+        }
+    }
+
+    escaped
+}
+
 /// Change any non-ASCII characters into a Solidity escaped character form.
 ///
 /// # Arguments
 ///
 /// * `s` - The string to un-encode.
 fn unencode_string(s: &str) -> String {
-    let mut unencoded_s = String::new();
+    escape_bytes(s.as_bytes())
+}
 
-    for c in s.chars() {
-        let c_code = c as u32;
-
-        if c_code < 32 {
-            match c_code {
-                8 => {
-                    // backspace
-                    unencoded_s.push('\\');
-                    unencoded_s.push('b');
-                }
-                9 => {
-                    // horizontal tab
-                    unencoded_s.push('\\');
-                    unencoded_s.push('t');
-                }
-                10 => {
-                    // new line/line feed
-                    unencoded_s.push('\\');
-                    unencoded_s.push('n');
-                }
-                11 => {
-                    // vertical tab
-                    unencoded_s.push('\\');
-                    unencoded_s.push('v');
-                }
-                12 => {
-                    // form feed
-                    unencoded_s.push('\\');
-                    unencoded_s.push('f');
-                }
-                13 => {
-                    // carriage return
-                    unencoded_s.push('\\');
-                    unencoded_s.push('r');
-                }
-                _ => {
-                    let converted_char = format!("\\x{:x}", c_code);
-                    unencoded_s += converted_char.as_str();
-                }
+/// Escape the characters that cannot appear as they are in a Solidity unicode string literal.
+///
+/// # Arguments
+///
+/// * `s` - The string to escape.
+fn escape_unicode_string(s: &str) -> String {
+    s.chars()
+        .map(|c| {
+            if c.is_ascii() {
+                escape_bytes(&[c as u8])
+            } else {
+                String::from(c)
             }
-        } else if (32..127).contains(&c_code) {
-            unencoded_s.push(c);
-        } else {
-            let converted_char = format!("\\u{:x}", c_code);
-            unencoded_s += converted_char.as_str();
-        }
-    }
+        })
+        .collect()
+}
 
-    unencoded_s
+/// Return the bytes in the `hexValue` of a literal node.
+///
+/// # Arguments
+///
+/// * `node` - The literal node.
+fn hex_value_bytes(node: &SolidityAST) -> Vec<u8> {
+    let hex_value = node.get_str_for_key("hexValue").unwrap_or("");
+    (0..hex_value.len() / 2)
+        .filter_map(|i| u8::from_str_radix(hex_value.get(2 * i..2 * i + 2)?, 16).ok())
+        .collect()
 }
 
 /// Return true if the string only contains ASCII digits and/or the '.' character.
@@ -994,20 +997,26 @@ impl NodePrinter<SolidityAST> for LiteralPrinter {
         _factory: &dyn NodePrinterFactory<SolidityAST>,
         node: &SolidityAST,
     ) {
+        let kind = node.get_str_for_key("kind").unwrap_or("");
         if let Some(value) = node.get_str_for_key("value") {
-            if let Some(kind) = node.get_str_for_key("kind") {
-                if kind == "string" {
-                    let unencoded_string = unencode_string(value);
-                    write_string(printer, stream, &unencoded_string);
-                } else if kind == "unicodeString" {
-                    write_token(printer, stream, "unicode");
-                    write_string(printer, stream, value);
-                } else {
-                    write_token(printer, stream, value);
-                }
+            if kind == "string" {
+                let unencoded_string = unencode_string(value);
+                write_string(printer, stream, &unencoded_string);
+            } else if kind == "unicodeString" {
+                let literal = format!("unicode\"{}\"", escape_unicode_string(value));
+                write_token(printer, stream, &literal);
+            } else if kind == "hexString" {
+                let literal = format!("hex\"{}\"", node.get_str_for_key("hexValue").unwrap_or(""));
+                write_token(printer, stream, &literal);
             } else {
                 write_token(printer, stream, value);
             }
+        } else if kind == "string" {
+            // The AST has no value for strings that are not valid UTF-8.
+            write_string(printer, stream, &escape_bytes(&hex_value_bytes(node)));
+        } else if kind == "hexString" {
+            let literal = format!("hex\"{}\"", node.get_str_for_key("hexValue").unwrap_or(""));
+            write_token(printer, stream, &literal);
         }
 
         if let Some(sub_denomination) = node.get_str_for_key("subdenomination") {
@@ -2049,7 +2058,9 @@ impl NodePrinter<SolidityAST> for YulLiteralPrinter {
                 }
             } else if kind_str == "string" {
                 if let Some(value_str) = node.get_str_for_key("value") {
-                    write_string(printer, stream, value_str);
+                    write_string(printer, stream, &unencode_string(value_str));
+                } else {
+                    write_string(printer, stream, &escape_bytes(&hex_value_bytes(node)));
                 }
             }
         }
-- 
2.43.0


From fed555f2edc74b283bc0299ec5786cd9cc912a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:15 +0000
Subject: [PATCH 18/71] fix: parenthesise operands that bind less tightly than
 their operator

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 111 +++++++++++++++++--
 1 file changed, 101 insertions(+), 10 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 0b4afb1..d71a39e 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -98,6 +98,85 @@ fn print_operator_helper(printer: &mut PrettyPrinter, stream: &mut dyn Write, no
     }
 }
 
+/// Binding strength of postfix expressions such as calls and member accesses.
+const POSTFIX_PRECEDENCE: usize = 1;
+
+/// Binding strength of prefix unary operators.
+const PREFIX_PRECEDENCE: usize = 2;
+
+/// Binding strength of conditional and assignment expressions.
+const ASSIGNMENT_PRECEDENCE: usize = 14;
+
+/// Return the binding strength of a binary operator, lower numbers bind more tightly.
+///
+/// # Arguments
+///
+/// * `operator` - The operator.
+fn operator_precedence(operator: &str) -> usize {
+    match operator {
+        "**" => 3,
+        "*" | "/" | "%" => 4,
+        "+" | "-" => 5,
+        "<<" | ">>" | ">>>" => 6,
+        "&" => 7,
+        "^" => 8,
+        "|" => 9,
+        "<" | ">" | "<=" | ">=" => 10,
+        "==" | "!=" => 11,
+        "&&" => 12,
+        _ => 13,
+    }
+}
+
+/// Return the binding strength of an expression, lower numbers bind more tightly.
+///
+/// # Arguments
+///
+/// * `node` - The expression node.
+fn expression_precedence(node: &SolidityAST) -> usize {
+    match node.get_str_for_key("nodeType") {
+        Some("BinaryOperation") => {
+            operator_precedence(node.get_str_for_key("operator").unwrap_or(""))
+        }
+        Some("UnaryOperation") => match node.get_bool_for_key("prefix") {
+            Some(false) => POSTFIX_PRECEDENCE,
+            _ => PREFIX_PRECEDENCE,
+        },
+        Some("Literal") => match node.get_str_for_key("value") {
+            Some(value) if value.starts_with('-') => PREFIX_PRECEDENCE,
+            _ => 0,
+        },
+        Some("Assignment") | Some("Conditional") => ASSIGNMENT_PRECEDENCE,
+        _ => 0,
+    }
+}
+
+/// Helper function to print the operand of an expression.  Source code has parentheses wherever the
+/// structure of an expression needs them, but the nodes of a mutated expression may not.
+///
+/// # Arguments
+///
+/// * `printer` - The [`PrettyPrinter`] object that will format the output text.
+/// * `stream` - The [`Write`] object that will received the formatted text.
+/// * `factory` - The [`SolidityNodePrinterFactory`] that generates printers for AST nodes.
+/// * `node` - The operand.
+/// * `precedence` - The loosest binding strength that does not require parentheses.
+fn print_operand_helper(
+    printer: &mut PrettyPrinter,
+    stream: &mut dyn Write,
+    factory: &dyn NodePrinterFactory<SolidityAST>,
+    node: &SolidityAST,
+    precedence: usize,
+) {
+    if expression_precedence(node) > precedence {
+        write_token(printer, stream, "(");
+        traverse_sub_node_and_print(printer, stream, factory, node);
+        write_token(printer, stream, ")");
+    } else {
+        traverse_sub_node_and_print(printer, stream, factory, node);
+    }
+}
+
 /// Helper function to write an array with each element preceded by a space.
 ///
 /// # Abstract
@@ -975,14 +1054,22 @@ impl NodePrinter<SolidityAST> for BinaryOperationPrinter {
         factory: &dyn NodePrinterFactory<SolidityAST>,
         node: &SolidityAST,
     ) {
+        // All operators other than exponentiation are left associative.
+        let operator = node.get_str_for_key("operator").unwrap_or("");
+        let precedence = operator_precedence(operator);
+        let (left, right) = match operator {
+            "**" => (precedence - 1, precedence),
+            _ => (precedence, precedence - 1),
+        };
+
         if let Some(le) = node.get("leftExpression") {
-            traverse_sub_node_and_print(printer, stream, factory, le);
+            print_operand_helper(printer, stream, factory, le, left);
         }
 
         print_operator_helper(printer, stream, node);
 
         if let Some(re) = node.get("rightExpression") {
-            traverse_sub_node_and_print(printer, stream, factory, re);
+            print_operand_helper(printer, stream, factory, re, right);
         }
     }
 }
@@ -1075,7 +1162,7 @@ impl NodePrinter<SolidityAST> for AssignmentPrinter {
         node: &SolidityAST,
     ) {
         if let Some(lhs) = node.get("leftHandSide") {
-            traverse_sub_node_and_print(printer, stream, factory, lhs);
+            print_operand_helper(printer, stream, factory, lhs, ASSIGNMENT_PRECEDENCE - 1);
         }
 
         print_operator_helper(printer, stream, node);
@@ -1113,7 +1200,7 @@ impl NodePrinter<SolidityAST> for FunctionCallPrinter {
         node: &SolidityAST,
     ) {
         if let Some(expression) = node.get("expression") {
-            traverse_sub_node_and_print(printer, stream, factory, expression);
+            print_operand_helper(printer, stream, factory, expression, POSTFIX_PRECEDENCE);
             write_token(printer, stream, "(");
         }
     }
@@ -1196,8 +1283,12 @@ impl NodePrinter<SolidityAST> for UnaryOperationPrinter {
                 }
             }
 
+            let precedence = match prefix {
+                true => PREFIX_PRECEDENCE,
+                false => POSTFIX_PRECEDENCE,
+            };
             if let Some(sub_expression) = node.get("subExpression") {
-                traverse_sub_node_and_print(printer, stream, factory, sub_expression);
+                print_operand_helper(printer, stream, factory, sub_expression, precedence);
             }
 
             if !prefix {
@@ -1220,7 +1311,7 @@ impl NodePrinter<SolidityAST> for MemberAccessPrinter {
         node: &SolidityAST,
     ) {
         if let Some(expression) = node.get("expression") {
-            traverse_sub_node_and_print(printer, stream, factory, expression);
+            print_operand_helper(printer, stream, factory, expression, POSTFIX_PRECEDENCE);
         }
 
         write_token(printer, stream, ".");
@@ -1242,7 +1333,7 @@ impl NodePrinter<SolidityAST> for IndexAccessPrinter {
         node: &SolidityAST,
     ) {
         if let Some(base_expression) = node.get("baseExpression") {
-            traverse_sub_node_and_print(printer, stream, factory, base_expression);
+            print_operand_helper(printer, stream, factory, base_expression, POSTFIX_PRECEDENCE);
         }
 
         write_token(printer, stream, "[");
@@ -1266,7 +1357,7 @@ impl NodePrinter<SolidityAST> for IndexRangeAccessPrinter {
         node: &SolidityAST,
     ) {
         if let Some(base_expression) = node.get("baseExpression") {
-            traverse_sub_node_and_print(printer, stream, factory, base_expression);
+            print_operand_helper(printer, stream, factory, base_expression, POSTFIX_PRECEDENCE);
         }
 
         write_token(printer, stream, "[");
@@ -2286,7 +2377,7 @@ impl NodePrinter<SolidityAST> for ConditionalPrinter {
         node: &SolidityAST,
     ) {
         if let Some(condition_node) = node.get("condition") {
-            traverse_sub_node_and_print(printer, stream, factory, condition_node);
+            print_operand_helper(printer, stream, factory, condition_node, ASSIGNMENT_PRECEDENCE - 1);
         }
         write_space(printer, stream);
         write_token(printer, stream, "?");
@@ -2317,7 +2408,7 @@ impl NodePrinter<SolidityAST> for FunctionCallOptionsPrinter {
         node: &SolidityAST,
     ) {
         if let Some(expr_node) = node.get("expression") {
-            traverse_sub_node_and_print(printer, stream, factory, expr_node);
+            print_operand_helper(printer, stream, factory, expr_node, POSTFIX_PRECEDENCE);
         }
 
         if let Some(names_array) = node.get_array_for_key("names") {
-- 
2.43.0


From dfdfe3918c3a87b1fad5589d9b986084d1c1cf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:15 +0000
Subject: [PATCH 19/71] fix: keep the signs of nested unary operations apart

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 49 ++++++++++++++++++--
 1 file changed, 46 insertions(+), 3 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index d71a39e..5853c0a 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -151,6 +151,28 @@ fn expression_precedence(node: &SolidityAST) -> usize {
     }
 }
 
+/// Return true if writing the operator of `node` directly before `operand` would join two signs
+/// into a different operator.
+///
+/// # Arguments
+///
+/// * `operand` - The operand of the unary operation.
+/// * `node` - The unary operation.
+fn starts_with_sign_of(operand: &SolidityAST, node: &SolidityAST) -> bool {
+    let first_token = match operand.get_str_for_key("nodeType") {
+        Some("UnaryOperation") if operand.get_bool_for_key("prefix") == Some(true) => {
+            operand.get_str_for_key("operator")
+        }
+        Some("Literal") => operand.get_str_for_key("value"),
+        _ => None,
+    };
+    match (first_token, node.get_str_for_key("operator")) {
+        (Some(token), Some(operator)) if operator.starts_with('-') => token.starts_with('-'),
+        (Some(token), Some(operator)) if operator.starts_with('+') => token.starts_with('+'),
+        _ => false,
+    }
+}
+
 /// Helper function to print the operand of an expression.  Source code has parentheses wherever the
 /// structure of an expression needs them, but the nodes of a mutated expression may not.
 ///
@@ -1288,6 +1310,9 @@ impl NodePrinter<SolidityAST> for UnaryOperationPrinter {
                 false => POSTFIX_PRECEDENCE,
             };
             if let Some(sub_expression) = node.get("subExpression") {
+                if prefix && starts_with_sign_of(sub_expression, node) {
+                    write_space(printer, stream);
+                }
                 print_operand_helper(printer, stream, factory, sub_expression, precedence);
             }
 
@@ -1333,7 +1358,13 @@ impl NodePrinter<SolidityAST> for IndexAccessPrinter {
         node: &SolidityAST,
     ) {
         if let Some(base_expression) = node.get("baseExpression") {
-            print_operand_helper(printer, stream, factory, base_expression, POSTFIX_PRECEDENCE);
+            print_operand_helper(
+                printer,
+                stream,
+                factory,
+                base_expression,
+                POSTFIX_PRECEDENCE,
+            );
         }
 
         write_token(printer, stream, "[");
@@ -1357,7 +1388,13 @@ impl NodePrinter<SolidityAST> for IndexRangeAccessPrinter {
         node: &SolidityAST,
     ) {
         if let Some(base_expression) = node.get("baseExpression") {
-            print_operand_helper(printer, stream, factory, base_expression, POSTFIX_PRECEDENCE);
+            print_operand_helper(
+                printer,
+                stream,
+                factory,
+                base_expression,
+                POSTFIX_PRECEDENCE,
+            );
         }
 
         write_token(printer, stream, "[");
@@ -2377,7 +2414,13 @@ impl NodePrinter<SolidityAST> for ConditionalPrinter {
         node: &SolidityAST,
     ) {
         if let Some(condition_node) = node.get("condition") {
-            print_operand_helper(printer, stream, factory, condition_node, ASSIGNMENT_PRECEDENCE - 1);
+            print_operand_helper(
+                printer,
+                stream,
+                factory,
+                condition_node,
+                ASSIGNMENT_PRECEDENCE - 1,
+            );
         }
         write_space(printer, stream);
         write_token(printer, stream, "?");
-- 
2.43.0


From 3d4851cda31c8608ddcc5dce4a106791cacdc203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:38 +0000
Subject: [PATCH 20/71] fix: let flowable text wrap without failing on long
 words, full lines or wide characters

---
 mutagenyx_lib/src/pretty_printer.rs | 96 ++++++++++-------------------
 1 file changed, 32 insertions(+), 64 deletions(-)

diff --git a/mutagenyx_lib/src/pretty_printer.rs b/mutagenyx_lib/src/pretty_printer.rs
index 6f554b3..df4b5d3 100644
--- a/mutagenyx_lib/src/pretty_printer.rs
+++ b/mutagenyx_lib/src/pretty_printer.rs
@@ -333,75 +333,43 @@ impl PrettyPrinter {
 
         let t = text.as_str();
 
-        if t.len() > (self.page_width - self.column) {
-            let space_left = self.page_width - self.column;
-            if space_left == 0 {
-                self.write_newline(stream)?;
-                self.write_indent(stream)?;
-                self.write_token(stream, next_line_text)?;
-                self.write_flowable_text(stream, t, next_line_text)?;
-            } else {
-                // Here we carefully examine the breakpoint of the text to see if we are breaking
-                // the text mid-word, or on a space boundary.  If we are breaking mid-word, then
-                // we back up the break point to the last space character and put the next full word
-                // on a newline.  This behavior prevents output flowable text from having wierd breaks
-                // in words.
-                let mut index_of_start_of_word: usize = 0;
-                let mut i: usize = 0;
-                let mut previous_char_was_space = false;
-                let bytes = t.as_bytes();
-
-                // First walk through the text that would fit in the remaining space and find any
-                // word boundaries.  We use a ' ' (space) character as the word boundary.
-                while i < space_left {
-                    if bytes[i] as char == ' ' {
-                        previous_char_was_space = true;
-                    } else {
-                        if previous_char_was_space {
-                            index_of_start_of_word = i;
-                        }
-                        previous_char_was_space = false;
-                    }
-
-                    i += 1;
+        let space_left = self.page_width.saturating_sub(self.column);
+
+        if t.len() > space_left {
+            // Here we carefully examine the breakpoint of the text to see if we are breaking
+            // the text mid-word, or on a space boundary.  If we are breaking mid-word, then
+            // we back up the break point to the last space character and put the next full word
+            // on a newline.  This behavior prevents output flowable text from having wierd breaks
+            // in words.
+            //
+            // NOTE: The algorithm makes no attempt to correctly break text with spaces enclosed
+            // in quotation marks (either single or double).
+            let mut break_point = t.as_bytes()[..=space_left].iter().rposition(|b| *b == b' ');
+
+            // If not even the first word fits and a new line would offer no more space, then let
+            // the word spill over the page width.
+            let next_line_start = self.indent_length() + next_line_text.len() + 1;
+            if break_point.is_none() && self.column <= next_line_start {
+                break_point = t.find(' ');
+                if break_point.is_none() {
+                    return self.write_basic_string(stream, t);
                 }
+            }
 
-                let first_part: &str;
-                let rest: &str;
-
-                // Now, check the end of the text at the space_left boundary and see if it is a
-                // ' ' (space) character or a text character.  If it is a space character, then we
-                // can break the text exactly on the space_left boundary.  If not, we go back
-                // to the previous space and put the with the partial word on the next line.
-                //
-                // NOTE: The algorithm makes no attempt to correctly break text with spaces enclosed
-                // in quotation marks (either single or double).
-                if bytes[i] as char == ' ' {
-                    first_part = &t[..space_left];
-                    rest = if bytes[space_left] as char == ' ' {
-                        &t[space_left + 1..]
-                    } else {
-                        &t[space_left..]
-                    };
-                } else {
-                    first_part = &t[..index_of_start_of_word];
-                    rest = if bytes[index_of_start_of_word] as char == ' ' {
-                        &t[index_of_start_of_word + 1..]
-                    } else {
-                        &t[index_of_start_of_word..]
-                    };
-                }
+            let (first_part, rest) = match break_point {
+                Some(index) => (&t[..index], &t[index + 1..]),
+                None => ("", t),
+            };
 
-                if !first_part.is_empty() {
-                    self.write_basic_string(stream, first_part)?;
-                }
+            if !first_part.is_empty() {
+                self.write_basic_string(stream, first_part)?;
+            }
+
+            if !rest.is_empty() {
                 self.write_newline(stream)?;
                 self.write_indent(stream)?;
-                self.write_token(stream, next_line_text)?;
-
-                if !rest.is_empty() {
-                    self.write_flowable_text(stream, rest, next_line_text)?;
-                }
+                self.write_basic_string(stream, next_line_text)?;
+                self.write_flowable_text(stream, rest, next_line_text)?;
             }
         } else {
             self.write_basic_string(stream, t)?;
-- 
2.43.0


From cd220383be00a83703a7bcd783ddf16569d57256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:38 +0000
Subject: [PATCH 21/71] fix: indent tokens that move to a new line because the
 previous line is too long

---
 mutagenyx_lib/src/pretty_printer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mutagenyx_lib/src/pretty_printer.rs b/mutagenyx_lib/src/pretty_printer.rs
index df4b5d3..b020ab6 100644
--- a/mutagenyx_lib/src/pretty_printer.rs
+++ b/mutagenyx_lib/src/pretty_printer.rs
@@ -193,6 +193,7 @@ impl PrettyPrinter {
         if self.column > self.page_width {
             // We have overreached on a previous write. Go to a newline.
             self.write_newline(stream)?;
+            self.write_indent(stream)?;
         }
 
         if token.len() > self.page_width {
-- 
2.43.0


From 0fb3cffa34f66b0a49cd9469639000ee86259455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:58 +0000
Subject: [PATCH 22/71] fix: comment out every line of code in a comment node

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 5853c0a..fee77a1 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1924,7 +1924,11 @@ impl NodePrinter<SolidityAST> for CommentPrinter {
         }
 
         if let Some(value_node) = node.get("value") {
-            traverse_sub_node_and_print(printer, stream, factory, value_node);
+            // The code may need more than one line, and every line needs to start a comment.
+            let mut code: Vec<u8> = vec![];
+            let mut code_printer = PrettyPrinter::new(printer.tab_width, printer.page_width);
+            traverse_sub_node_and_print(&mut code_printer, &mut code, factory, value_node);
+            write_flowable_text(printer, stream, &String::from_utf8_lossy(&code), "// ");
         }
     }
 }
-- 
2.43.0


From 1625c1aa8c5f57a5ecdd9a7d7f13b79200edb146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:26 +0000
Subject: [PATCH 23/71] fix: offer only assignments of integer and boolean
 types to the Assignment algorithm

---
 mutagenyx_lib/src/solidity/mutators.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index e547ad9..ed7344d 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -541,13 +541,12 @@ impl Mutator<SolidityAST> for AssignmentMutator {
                     }
                 };
 
-                if type_string.len() < 3 {
-                    return false;
-                }
-
-                let first_three_chars = &type_string[..3];
-
-                return matches!(first_three_chars, "uin" | "int" | "boo");
+                // Types such as arrays also start with the name of their element type.
+                return type_string == "bool"
+                    || type_string
+                        .strip_prefix("uint")
+                        .or_else(|| type_string.strip_prefix("int"))
+                        .map_or(false, |size| size.parse::<u32>().is_ok());
             }
         }
         false
-- 
2.43.0


From 8fd510fc762df9d53f57bac1620fde9a21fd1c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:26 +0000
Subject: [PATCH 24/71] fix: compute the bounds of large signed integer types
 without overflowing

---
 mutagenyx_lib/src/solidity/mutators.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index ed7344d..66fe462 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -611,8 +611,8 @@ impl Mutator<SolidityAST> for AssignmentMutator {
                     type_size = 128;
                 }
 
-                let lower_bound = -(2_i128.pow(type_size - 1));
-                let upper_bound = 2_i128.pow(type_size - 1);
+                let lower_bound = i128::MIN >> (128 - type_size);
+                let upper_bound = i128::MAX >> (128 - type_size);
                 let replacement_value = rand.gen_range(lower_bound, upper_bound);
 
                 hasher.update(&replacement_value.to_ne_bytes())?;
-- 
2.43.0


From fec6bec43f1cc60d4f0c3e1e78e0ab10d7cb03cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:26 +0000
Subject: [PATCH 25/71] fix: let the Assignment algorithm generate both boolean
 values

---
 mutagenyx_lib/src/solidity/mutators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index 66fe462..9378e95 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -657,7 +657,7 @@ impl Mutator<SolidityAST> for AssignmentMutator {
                 hasher.update("boo".as_bytes())?;
 
                 assert_eq!(type_string, "bool");
-                let replacement_value: i8 = rand.gen_range(0, 1);
+                let replacement_value: i8 = rand.gen_range(0, 2);
                 let bool_literal: bool = replacement_value != 0;
 
                 hasher.update(&replacement_value.to_ne_bytes())?;
-- 
2.43.0


From efede3c45e96e460cf889ce86391559ad7795a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:26 +0000
Subject: [PATCH 26/71] fix: mutate integer literals in every notation and of
 any size

---
 mutagenyx_lib/src/solidity/mutators.rs | 37 +++++++++++++++++++-------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index 9378e95..324c33e 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -12,7 +12,7 @@ use crate::solidity::ast::{SolidityAST, SolidityASTApi};
 use crate::solidity::pretty_printer::SolidityNodePrinterFactory;
 use crate::PrettyPrinter;
 use hex;
-use num::Integer;
+use num::{BigInt, Integer, Num};
 use openssl::hash::{Hasher, MessageDigest};
 use rand::seq::SliceRandom;
 use rand::{Rng, RngCore};
@@ -1271,6 +1271,26 @@ impl Mutator<SolidityAST> for IfStatementMutator {
 /// * Adds one to integer constant.
 /// * Subtracts one from integer constant.
 /// * Generates a random value.
+/// Return the value of an integer literal.
+///
+/// # Arguments
+///
+/// * `text` - The text of the number literal: decimal with an optional exponent, or hexadecimal.
+fn parse_integer_literal(text: &str) -> Option<BigInt> {
+    let digits = text.replace('_', "");
+    if let Some(hex_digits) = digits.strip_prefix("0x") {
+        return BigInt::from_str_radix(hex_digits, 16).ok();
+    }
+    match digits.split_once(['e', 'E']) {
+        Some((mantissa, exponent)) => {
+            let exponent = exponent.parse::<u16>().ok()?;
+            let mantissa = mantissa.parse::<BigInt>().ok()?;
+            Some(mantissa * BigInt::from(10).pow(exponent as u32))
+        }
+        None => digits.parse::<BigInt>().ok(),
+    }
+}
+
 struct IntegerMutator {
     /// Information about the mutation.
     comment_node: Option<SolidityAST>,
@@ -1291,12 +1311,7 @@ impl Mutator<SolidityAST> for IntegerMutator {
                 if let Some(kind) = node.get_str_for_key("kind") {
                     if kind == "number" {
                         if let Some(value) = node.get_str_for_key("value") {
-                            let text = String::from(value);
-                            // Search for a . in the string which indicates a floating point number.
-                            let find_result = text.find('.');
-                            if find_result.is_none() {
-                                return true;
-                            }
+                            return parse_integer_literal(value).is_some();
                         }
                     }
                 }
@@ -1328,7 +1343,9 @@ impl Mutator<SolidityAST> for IntegerMutator {
                 if let Some(value) = node.get_str_for_key("value") {
                     let value_string = value.to_string();
                     original_value_s = value_string.clone();
-                    let mut my_integer = value_string.parse::<i64>().unwrap();
+                    let mut my_integer = parse_integer_literal(value).ok_or_else(|| {
+                        MutagenyxError::MalformedNode(String::from("Literal"), String::from("value"))
+                    })?;
                     my_integer += 1;
                     new_value_s = my_integer.to_string();
                     node.set_str_for_key("value", my_integer.to_string().as_str());
@@ -1340,7 +1357,9 @@ impl Mutator<SolidityAST> for IntegerMutator {
                 if let Some(value) = node.get_str_for_key("value") {
                     let value_string = value.to_string();
                     original_value_s = value_string.clone();
-                    let mut my_integer = value_string.parse::<i64>().unwrap();
+                    let mut my_integer = parse_integer_literal(value).ok_or_else(|| {
+                        MutagenyxError::MalformedNode(String::from("Literal"), String::from("value"))
+                    })?;
                     my_integer -= 1;
                     new_value_s = my_integer.to_string();
                     node.set_str_for_key("value", my_integer.to_string().as_str());
-- 
2.43.0


From 6999f76e4659ee1b66dec8600c8e10b10efbc428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:26 +0000
Subject: [PATCH 27/71] fix: replace assigned values and integer literals with
 different values

---
 mutagenyx_lib/src/solidity/mutators.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index 324c33e..30e221c 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -598,6 +598,9 @@ impl Mutator<SolidityAST> for AssignmentMutator {
             ));
         };
 
+        // The replacement must not have the value of the literal that it replaces.
+        let original_value = parse_integer_literal(&original_rhs_s);
+
         let first_three_chars = &type_string[..3];
 
         match first_three_chars {
@@ -613,7 +616,10 @@ impl Mutator<SolidityAST> for AssignmentMutator {
 
                 let lower_bound = i128::MIN >> (128 - type_size);
                 let upper_bound = i128::MAX >> (128 - type_size);
-                let replacement_value = rand.gen_range(lower_bound, upper_bound);
+                let mut replacement_value = rand.gen_range(lower_bound, upper_bound);
+                while original_value == Some(BigInt::from(replacement_value)) {
+                    replacement_value = rand.gen_range(lower_bound, upper_bound);
+                }
 
                 hasher.update(&replacement_value.to_ne_bytes())?;
 
@@ -642,7 +648,10 @@ impl Mutator<SolidityAST> for AssignmentMutator {
                     340282366920938463463374607431768211455u128
                 };
 
-                let replacement_value = rand.gen_range(lower_bound, upper_bound);
+                let mut replacement_value = rand.gen_range(lower_bound, upper_bound);
+                while original_value == Some(BigInt::from(replacement_value)) {
+                    replacement_value = rand.gen_range(lower_bound, upper_bound);
+                }
 
                 hasher.update(&replacement_value.to_ne_bytes())?;
 
@@ -657,7 +666,11 @@ impl Mutator<SolidityAST> for AssignmentMutator {
                 hasher.update("boo".as_bytes())?;
 
                 assert_eq!(type_string, "bool");
-                let replacement_value: i8 = rand.gen_range(0, 2);
+                let replacement_value: i8 = match original_rhs_s.as_str() {
+                    "true" => 0,
+                    "false" => 1,
+                    _ => rand.gen_range(0, 2),
+                };
                 let bool_literal: bool = replacement_value != 0;
 
                 hasher.update(&replacement_value.to_ne_bytes())?;
@@ -1372,7 +1385,11 @@ impl Mutator<SolidityAST> for IntegerMutator {
                 }
 
                 // Generate a random number.
-                let value = rand.next_u64();
+                let original_value = parse_integer_literal(&original_value_s);
+                let mut value = rand.next_u64();
+                while original_value == Some(BigInt::from(value)) {
+                    value = rand.next_u64();
+                }
                 new_value_s = value.to_string();
                 node.set_str_for_key("value", value.to_string().as_str());
             }
-- 
2.43.0


From 21e8ba259f36c0e002f02a692450a5e58e5195d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:26 +0000
Subject: [PATCH 28/71] fix: offer calls with only literal arguments never to
 the FunctionCall algorithm

---
 mutagenyx_lib/src/solidity/mutators.rs | 31 ++++++++++----------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index 30e221c..de21566 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -890,23 +890,10 @@ impl Mutator<SolidityAST> for FunctionCallMutator {
                 if let Some(arguments_node) = node.get("arguments") {
                     if let Some(arguments_array) = arguments_node.as_array() {
                         if !arguments_array.is_empty() {
-                            let mut has_literal = false;
-                            for value in arguments_array {
-                                if let Some(value_node_type) = value.get_str_for_key("nodeType") {
-                                    if value_node_type == "Literal" {
-                                        has_literal = true;
-                                        break;
-                                    }
-                                }
-                            }
-
-                            if has_literal && arguments_array.len() > 1 {
-                                return true;
-                            } else if has_literal {
-                                return false;
-                            }
-
-                            return true;
+                            // The mutator never picks a Literal node.
+                            return arguments_array
+                                .iter()
+                                .any(|value| value.get_str_for_key("nodeType") != Some("Literal"));
                         }
                     }
                 }
@@ -1357,7 +1344,10 @@ impl Mutator<SolidityAST> for IntegerMutator {
                     let value_string = value.to_string();
                     original_value_s = value_string.clone();
                     let mut my_integer = parse_integer_literal(value).ok_or_else(|| {
-                        MutagenyxError::MalformedNode(String::from("Literal"), String::from("value"))
+                        MutagenyxError::MalformedNode(
+                            String::from("Literal"),
+                            String::from("value"),
+                        )
                     })?;
                     my_integer += 1;
                     new_value_s = my_integer.to_string();
@@ -1371,7 +1361,10 @@ impl Mutator<SolidityAST> for IntegerMutator {
                     let value_string = value.to_string();
                     original_value_s = value_string.clone();
                     let mut my_integer = parse_integer_literal(value).ok_or_else(|| {
-                        MutagenyxError::MalformedNode(String::from("Literal"), String::from("value"))
+                        MutagenyxError::MalformedNode(
+                            String::from("Literal"),
+                            String::from("value"),
+                        )
                     })?;
                     my_integer -= 1;
                     new_value_s = my_integer.to_string();
-- 
2.43.0


From 9d7cfa39a9ada444bb2f999b031b1db342c7803b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:26 +0000
Subject: [PATCH 29/71] fix: choose swapped function arguments reproducibly

---
 mutagenyx_lib/src/solidity/mutators.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index de21566..b13fe2b 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -18,7 +18,7 @@ use rand::seq::SliceRandom;
 use rand::{Rng, RngCore};
 use rand_pcg::*;
 use serde_json::json;
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::fmt;
 
 /// Return a new integer literal node representing an integer literal number.
@@ -1043,7 +1043,8 @@ impl Mutator<SolidityAST> for SwapFunctionArgumentsMutator {
         // nodes of the same type so that we can swap them.
         if let Some(mut arguments_node) = node.take_value_for_key("arguments") {
             if let Some(arguments_array) = arguments_node.as_array_mut() {
-                let mut arg_map: HashMap<&str, Vec<IndexedNode>> = HashMap::new();
+                // The iteration order of the map must not differ between runs.
+                let mut arg_map: BTreeMap<&str, Vec<IndexedNode>> = BTreeMap::new();
                 for (index, value) in arguments_array.iter().enumerate() {
                     if let Some(type_descriptions_node) = value.get("typeDescriptions") {
                         if let Some(type_string) =
-- 
2.43.0


From 6a818118094366c8d5ebf93d38cd7c50cf242829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:26 +0000
Subject: [PATCH 30/71] fix: offer blocks to the SwapLines algorithm only with
 two statements to swap

---
 mutagenyx_lib/src/solidity/mutators.rs | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index b13fe2b..ff40f36 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -1537,25 +1537,13 @@ impl Mutator<SolidityAST> for SwapLinesMutator {
             if node_type == "Block" {
                 if let Some(statements_node) = node.get("statements") {
                     if let Some(statements_array) = statements_node.as_array() {
-                        if statements_array.len() >= 2 {
-                            let mut found_return_statement = false;
-                            for value in statements_array {
-                                if let Some(value_node_type) = value.get_str_for_key("nodeType") {
-                                    if value_node_type == "Return" {
-                                        found_return_statement = true;
-                                        break;
-                                    }
-                                }
-                            }
-
-                            // If the body of the function def has a return statement, then there
-                            // must be at least 3 statements in the body in order to swap (but not
-                            // swap a return statement) statements.  If there are no return statements
-                            // then we can just go ahead and swap.
-                            if !found_return_statement || statements_array.len() >= 3 {
-                                return true;
-                            }
-                        }
+                        // The mutator does not swap return statements, so there must be at least
+                        // two other statements.
+                        return statements_array
+                            .iter()
+                            .filter(|value| value.get_str_for_key("nodeType") != Some("Return"))
+                            .count()
+                            >= 2;
                     }
                 }
             }
-- 
2.43.0


From edf4d9ecb0535d992018e6596d086fb561259bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:26 +0000
Subject: [PATCH 31/71] fix: offer blocks to the UncheckedBlock algorithm only
 with a statement to wrap

---
 mutagenyx_lib/src/solidity/mutators.rs | 39 ++++++--------------------
 1 file changed, 8 insertions(+), 31 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index ff40f36..9dbd5e8 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -1863,37 +1863,14 @@ impl Mutator<SolidityAST> for SolidityUncheckedBlockMutator {
             if node_type == "Block" {
                 if let Some(statements_node) = node.get("statements") {
                     if let Some(statements_array) = statements_node.as_array() {
-                        if !statements_array.is_empty() {
-                            let mut have_return_statement = false;
-                            let mut have_unchecked_block_statement = false;
-                            let mut required_length: usize = 1;
-                            for value in statements_array {
-                                if let Some(value_node_type) = value.get_str_for_key("nodeType") {
-                                    if (!have_return_statement) && value_node_type == "Return" {
-                                        have_return_statement = true;
-                                        required_length += 1;
-                                    }
-                                    if (!have_unchecked_block_statement)
-                                        && value_node_type == "UncheckedBlock"
-                                    {
-                                        have_unchecked_block_statement = true;
-                                        required_length += 1;
-                                    }
-
-                                    if have_return_statement && have_unchecked_block_statement {
-                                        break;
-                                    }
-                                }
-                            }
-
-                            // If the Block node has a return statement and/or an UncheckedBlock statement,
-                            // we need at least one more statement than block + unchecked block
-                            // in order for the algorithm to work.  We do not wrap a return statement
-                            // or an unchecked block statement in unchecked{}.
-                            if statements_array.len() >= required_length {
-                                return true;
-                            }
-                        }
+                        // We do not wrap a return statement or an unchecked block statement in
+                        // unchecked{}, so there must be at least one other statement.
+                        return statements_array.iter().any(|value| {
+                            !matches!(
+                                value.get_str_for_key("nodeType"),
+                                Some("Return" | "UncheckedBlock")
+                            )
+                        });
                     }
                 }
             }
-- 
2.43.0


From 112ba9bf6aab19beea0c395035ee747d50a86b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:26 +0000
Subject: [PATCH 32/71] fix: keep a commented block under its own key

---
 mutagenyx_lib/src/solidity/commenter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/solidity/commenter.rs b/mutagenyx_lib/src/solidity/commenter.rs
index 0dfda92..c5a0ab1 100644
--- a/mutagenyx_lib/src/solidity/commenter.rs
+++ b/mutagenyx_lib/src/solidity/commenter.rs
@@ -56,7 +56,7 @@ fn insert_comment_into_node_with_key(
                         {
                             statements_array.insert(0, comment_node);
                         }
-                        node.set_node_for_key("body", body_node);
+                        node.set_node_for_key(key, body_node);
                         return true;
                     }
                 }
-- 
2.43.0


From 52959749f71e04111f229a60edc2bb904e4d6f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:26 +0000
Subject: [PATCH 33/71] fix: restrict mutations to the named functions, not to
 other nodes with the same name

---
 mutagenyx_lib/src/solidity/language_interface.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/language_interface.rs b/mutagenyx_lib/src/solidity/language_interface.rs
index 70f9b41..c3d60ae 100644
--- a/mutagenyx_lib/src/solidity/language_interface.rs
+++ b/mutagenyx_lib/src/solidity/language_interface.rs
@@ -156,8 +156,12 @@ impl JSONLanguageDelegate for SolidityLanguageSubDelegate {
     }
 
     fn get_namer(&self) -> Box<dyn Namer<Value>> {
-        Box::new(JSONNamer::new(|v| {
-            v.get_str_for_key("name").map(String::from)
+        // Names restrict mutations to functions, other nodes with the same name do not matter.
+        Box::new(JSONNamer::new(|v| match v.get_str_for_key("nodeType") {
+            Some("FunctionDefinition" | "ModifierDefinition") => {
+                v.get_str_for_key("name").map(String::from)
+            }
+            _ => None,
         }))
     }
 }
-- 
2.43.0


From 43e0a5e6411ea96de7c2e9675fbd1a42312e27fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:57 +0000
Subject: [PATCH 34/71] fix: do not break Vyper lines between tokens

---
 mutagenyx_lib/src/pretty_printer.rs           | 9 ++++++++-
 mutagenyx_lib/src/vyper/language_interface.rs | 3 +++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/pretty_printer.rs b/mutagenyx_lib/src/pretty_printer.rs
index b020ab6..05b2a85 100644
--- a/mutagenyx_lib/src/pretty_printer.rs
+++ b/mutagenyx_lib/src/pretty_printer.rs
@@ -15,6 +15,8 @@ pub struct PrettyPrinter {
     pub indent: usize,
     pub newline: String,
     pub max_indent: usize,
+    /// False if a token may not move to a new line, because line ends have a meaning in the language.
+    pub wrap_tokens: bool,
 }
 
 impl PrettyPrinter {
@@ -43,6 +45,7 @@ impl PrettyPrinter {
             indent: 0,
             newline: String::from(newline),
             max_indent: max_indent as usize,
+            wrap_tokens: true,
         }
     }
 
@@ -160,7 +163,7 @@ impl PrettyPrinter {
     ///
     /// * `stream` - The object that implements the [`Write`] trait.
     pub fn write_space(&mut self, stream: &mut dyn Write) -> Result<(), MutagenyxError> {
-        if self.column == self.page_width {
+        if self.wrap_tokens && self.column == self.page_width {
             self.write_newline(stream)?;
             self.write_indent(stream)?;
         }
@@ -190,6 +193,10 @@ impl PrettyPrinter {
         stream: &mut dyn Write,
         token: &str,
     ) -> Result<(), MutagenyxError> {
+        if !self.wrap_tokens {
+            return self.write_basic_string(stream, token);
+        }
+
         if self.column > self.page_width {
             // We have overreached on a previous write. Go to a newline.
             self.write_newline(stream)?;
diff --git a/mutagenyx_lib/src/vyper/language_interface.rs b/mutagenyx_lib/src/vyper/language_interface.rs
index e282051..59f692d 100644
--- a/mutagenyx_lib/src/vyper/language_interface.rs
+++ b/mutagenyx_lib/src/vyper/language_interface.rs
@@ -76,6 +76,9 @@ impl JSONLanguageDelegate for VyperLanguageDelegate {
         stream: &'a mut dyn Write,
         printer: &'a mut PrettyPrinter,
     ) -> Box<dyn Visitor<Value> + 'a> {
+        // Line ends and indentation are part of the syntax of Vyper.
+        printer.wrap_tokens = false;
+        printer.max_indent = usize::MAX;
         return Box::new(PrettyPrintVisitor::new(
             stream,
             printer,
-- 
2.43.0


From 7b429971921d33fec618a2958c9a51dc8ee07eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:58 +0000
Subject: [PATCH 35/71] fix: parenthesise Vyper tuples wherever they need it

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 113 ++++++++++------------
 1 file changed, 51 insertions(+), 62 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index 2f85f28..5c88f30 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -14,7 +14,7 @@ use crate::vyper::operators::get_python_operator_map;
 use std::collections::HashMap;
 use std::io::Write;
 
-/// Write the `value` element of `node` by traversing the object in `value`.
+/// Write the value of the array contained in the `elements` key.
 ///
 /// # Arguments
 ///
@@ -23,18 +23,20 @@ use std::io::Write;
 /// * `factory` - The [`NodePrinterFactory<AST>`] object that generates node printers for AST
 /// nodes.
 /// * `node` - The node in the Vyper AST.
-fn write_simple_value(
+fn write_elements_array(
     printer: &mut PrettyPrinter,
     stream: &mut dyn Write,
     factory: &dyn NodePrinterFactory<VyperAST>,
     node: &VyperAST,
 ) {
-    if let Some(value_node) = node.get("value") {
-        traverse_sub_node_and_print(printer, stream, factory, value_node);
+    if let Some(elements_node) = node.get("elements") {
+        if let Some(elements_array) = elements_node.as_array() {
+            print_array_helper(printer, stream, factory, elements_array);
+        }
     }
 }
 
-/// Write the value of the array contained in the `elements` key.
+/// Write the elements of a tuple. A tuple with only one element needs a comma after the element.
 ///
 /// # Arguments
 ///
@@ -42,20 +44,45 @@ fn write_simple_value(
 /// * `stream` - The [`Write`] object that will receive the formatted text.
 /// * `factory` - The [`NodePrinterFactory<AST>`] object that generates node printers for AST
 /// nodes.
-/// * `node` - The node in the Vyper AST.
-fn write_elements_array(
+/// * `node` - The `Tuple` node in the Vyper AST.
+fn write_tuple_elements(
     printer: &mut PrettyPrinter,
     stream: &mut dyn Write,
     factory: &dyn NodePrinterFactory<VyperAST>,
     node: &VyperAST,
 ) {
-    if let Some(elements_node) = node.get("elements") {
-        if let Some(elements_array) = elements_node.as_array() {
-            print_array_helper(printer, stream, factory, elements_array);
+    write_elements_array(printer, stream, factory, node);
+    if let Some(elements_array) = node.get_array_for_key("elements") {
+        if elements_array.len() == 1 {
+            write_token(printer, stream, ",");
         }
     }
 }
 
+/// Write `node` in a position where a tuple does not need parentheses.
+///
+/// # Arguments
+///
+/// * `printer` - The [`PrettyPrinter`] object that will format the output.
+/// * `stream` - The [`Write`] object that will receive the formatted text.
+/// * `factory` - The [`NodePrinterFactory<AST>`] object that generates node printers for AST
+/// nodes.
+/// * `node` - The node in the Vyper AST.
+fn write_node_as_bare_tuple_maybe(
+    printer: &mut PrettyPrinter,
+    stream: &mut dyn Write,
+    factory: &dyn NodePrinterFactory<VyperAST>,
+    node: &VyperAST,
+) {
+    let is_tuple = node.get_str_for_key("ast_type") == Some("Tuple");
+    let has_elements = matches!(node.get_array_for_key("elements"), Some(e) if !e.is_empty());
+    if is_tuple && has_elements {
+        write_tuple_elements(printer, stream, factory, node);
+    } else {
+        traverse_sub_node_and_print(printer, stream, factory, node);
+    }
+}
+
 /// Write the value of the array contained in `key`.
 ///
 /// # Arguments
@@ -326,13 +353,7 @@ impl NodePrinter<VyperAST> for VariableDeclPrinter {
             }
 
             if let Some(annotation_node) = node.get("annotation") {
-                let mut printer_settings = factory.get_settings().clone();
-                printer_settings.set_value_for_key(
-                    TUPLES_SHOULD_USE_PARENTHESES,
-                    PreferenceValue::Boolean(true),
-                );
-                let sub_factory = VyperNodePrinterFactory::new(printer_settings);
-                traverse_sub_node_and_print(printer, stream, &sub_factory, annotation_node);
+                traverse_sub_node_and_print(printer, stream, factory, annotation_node);
             }
 
             for _ in 0..close_parens_needed {
@@ -374,21 +395,15 @@ impl NodePrinter<VyperAST> for IndexPrinter {
         factory: &dyn NodePrinterFactory<VyperAST>,
         node: &VyperAST,
     ) {
-        let mut printer_settings = factory.get_settings().clone();
-        printer_settings.set_value_for_key(
-            TUPLES_SHOULD_USE_PARENTHESES,
-            PreferenceValue::Boolean(false),
-        );
-        let sub_factory = VyperNodePrinterFactory::new(printer_settings);
         write_token(printer, stream, "[");
-        write_simple_value(printer, stream, &sub_factory, node);
+        if let Some(value_node) = node.get("value") {
+            write_node_as_bare_tuple_maybe(printer, stream, factory, value_node);
+        }
         write_token(printer, stream, "]");
     }
 }
 
-struct TuplePrinter {
-    pub use_parentheses: bool,
-}
+struct TuplePrinter {}
 
 impl NodePrinter<VyperAST> for TuplePrinter {
     fn print_node(
@@ -398,13 +413,9 @@ impl NodePrinter<VyperAST> for TuplePrinter {
         factory: &dyn NodePrinterFactory<VyperAST>,
         node: &VyperAST,
     ) {
-        if self.use_parentheses {
-            write_token(printer, stream, "(");
-        }
-        write_elements_array(printer, stream, factory, node);
-        if self.use_parentheses {
-            write_token(printer, stream, ")");
-        }
+        write_token(printer, stream, "(");
+        write_tuple_elements(printer, stream, factory, node);
+        write_token(printer, stream, ")");
     }
 }
 
@@ -477,18 +488,10 @@ impl NodePrinter<VyperAST> for FunctionDefPrinter {
         write_token(printer, stream, ")");
         if let Some(returns_node) = node.get("returns") {
             if !returns_node.is_null() {
-                let mut printer_settings = factory.get_settings().clone();
-                printer_settings.set_value_for_key(
-                    TUPLES_SHOULD_USE_PARENTHESES,
-                    PreferenceValue::Boolean(true),
-                );
-                // let sub_factory: Box<dyn NodePrinterFactory<VyperAST>> =
-                //     Box::new(VyperNodePrinterFactory::new(printer_settings));
-                let sub_factory = VyperNodePrinterFactory::new(printer_settings);
                 write_space(printer, stream);
                 write_token(printer, stream, "->");
                 write_space(printer, stream);
-                traverse_sub_node_and_print(printer, stream, &sub_factory, returns_node);
+                traverse_sub_node_and_print(printer, stream, factory, returns_node);
             }
         }
         write_token(printer, stream, ":");
@@ -606,11 +609,11 @@ impl NodePrinter<VyperAST> for AssignPrinter {
         node: &VyperAST,
     ) {
         if let Some(target_node) = node.get("target") {
-            traverse_sub_node_and_print(printer, stream, factory, target_node);
+            write_node_as_bare_tuple_maybe(printer, stream, factory, target_node);
         }
         write_token(printer, stream, " = ");
         if let Some(value_node) = node.get("value") {
-            traverse_sub_node_and_print(printer, stream, factory, value_node);
+            write_node_as_bare_tuple_maybe(printer, stream, factory, value_node);
         }
     }
 }
@@ -1201,7 +1204,7 @@ impl NodePrinter<VyperAST> for ReturnPrinter {
         if let Some(value_node) = node.get("value") {
             if !value_node.is_null() {
                 write_space(printer, stream);
-                traverse_sub_node_and_print(printer, stream, factory, value_node);
+                write_node_as_bare_tuple_maybe(printer, stream, factory, value_node);
             }
         }
     }
@@ -1522,7 +1525,6 @@ impl NodePrinter<VyperAST> for EnumDefPrinter {
     }
 }
 
-static TUPLES_SHOULD_USE_PARENTHESES: &str = "tuples_should_use_parentheses";
 static FUNCTION_DEF_USES_STRUCT_DECL_FORM: &str = "function_def_uses_struct_decl_form";
 
 /// Type that implements [`NodePrinterFactory<AST>`] for Vyper AST nodes.
@@ -1538,8 +1540,7 @@ impl VyperNodePrinterFactory {
     ///
     /// # Arguments
     ///
-    /// * `tuples_use_parens` - True if the factory should generate tuple printers that write
-    /// parentheses around the tuple.
+    /// * `settings` - The settings that select between forms of output.
     pub fn new(settings: Preferences) -> VyperNodePrinterFactory {
         VyperNodePrinterFactory { settings }
     }
@@ -1547,10 +1548,6 @@ impl VyperNodePrinterFactory {
     /// Create a new node printer factory with default settings.
     pub fn default() -> VyperNodePrinterFactory {
         let mut preferences = Preferences::new();
-        preferences.set_value_for_key(
-            TUPLES_SHOULD_USE_PARENTHESES,
-            PreferenceValue::Boolean(false),
-        );
         preferences.set_value_for_key(
             FUNCTION_DEF_USES_STRUCT_DECL_FORM,
             PreferenceValue::Boolean(false),
@@ -1569,15 +1566,7 @@ impl NodePrinterFactory<VyperAST> for VyperNodePrinterFactory {
                 "VariableDecl" => Box::new(VariableDeclPrinter {}),
                 "Subscript" => Box::new(SubscriptPrinter {}),
                 "Index" => Box::new(IndexPrinter {}),
-                "Tuple" => {
-                    Box::new(TuplePrinter {
-                        use_parentheses: <VyperNodePrinterFactory as NodePrinterFactory<
-                            VyperAST,
-                        >>::get_preference_value_for_key(
-                            self, TUPLES_SHOULD_USE_PARENTHESES
-                        ),
-                    })
-                }
+                "Tuple" => Box::new(TuplePrinter {}),
                 "FunctionDef" => Box::new(
                     FunctionDefPrinter::new(<VyperNodePrinterFactory as NodePrinterFactory<
                         VyperAST,
-- 
2.43.0


From be156961414fb82416192c1d9704c3ce0bdfc12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:58 +0000
Subject: [PATCH 36/71] fix: parenthesise operands in Vyper expressions that
 bind less tightly than their operator

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 92 +++++++++++++++++++----
 1 file changed, 79 insertions(+), 13 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index 5c88f30..cac11d3 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -226,7 +226,7 @@ fn write_indented_array(
 }
 
 /// Write the contents of the node and wrap the contents in parentheses if the node is a BinOp,
-/// Compare, or BoolOp.
+/// Compare, BoolOp, IfExp, or a negation with `not`.
 ///
 /// # Arguments
 ///
@@ -242,16 +242,77 @@ fn write_node_with_parens_maybe(
     node: &VyperAST,
 ) {
     if let Some(ast_type) = node.get_str_for_key("ast_type") {
-        let needs_parens = ast_type == "BinOp" || ast_type == "Compare" || ast_type == "BoolOp";
+        let needs_parens = match ast_type {
+            "BinOp" | "Compare" | "BoolOp" | "IfExp" => true,
+            "UnaryOp" => node.get_str_for_key("op/ast_type") == Some("Not"),
+            _ => false,
+        };
+        write_node_with_parens_if(printer, stream, factory, node, needs_parens);
+    }
+}
 
-        if needs_parens {
-            write_token(printer, stream, "(");
-        }
-        traverse_sub_node_and_print(printer, stream, factory, node);
+/// Write the contents of the node and wrap the contents in parentheses if `needs_parens` is true.
+///
+/// # Arguments
+///
+/// * `printer` - The [`PrettyPrinter`] object that will format the text.
+/// * `stream` - The [`Write`] object that will receive the formatted text.
+/// * `factory` - The [`NodePrinterFactory<AST>`] object that generates node printers for AST
+/// nodes.
+/// * `node` - The Vyper AST node.
+/// * `needs_parens` - True if the node needs parentheses.
+fn write_node_with_parens_if(
+    printer: &mut PrettyPrinter,
+    stream: &mut dyn Write,
+    factory: &dyn NodePrinterFactory<VyperAST>,
+    node: &VyperAST,
+    needs_parens: bool,
+) {
+    if needs_parens {
+        write_token(printer, stream, "(");
+    }
+    traverse_sub_node_and_print(printer, stream, factory, node);
+    if needs_parens {
+        write_token(printer, stream, ")");
+    }
+}
 
-        if needs_parens {
-            write_token(printer, stream, ")");
-        }
+/// Write the node before the `.`, `[`, or `(` of an attribute, subscript, or call.
+///
+/// # Arguments
+///
+/// * `printer` - The [`PrettyPrinter`] object that will format the text.
+/// * `stream` - The [`Write`] object that will receive the formatted text.
+/// * `factory` - The [`NodePrinterFactory<AST>`] object that generates node printers for AST
+/// nodes.
+/// * `node` - The Vyper AST node.
+fn write_primary_node(
+    printer: &mut PrettyPrinter,
+    stream: &mut dyn Write,
+    factory: &dyn NodePrinterFactory<VyperAST>,
+    node: &VyperAST,
+) {
+    let needs_parens = matches!(
+        node.get_str_for_key("ast_type"),
+        Some("BinOp" | "Compare" | "BoolOp" | "UnaryOp" | "IfExp")
+    );
+    write_node_with_parens_if(printer, stream, factory, node, needs_parens);
+}
+
+/// Return true if `node` prints with a sign or a prefix operator, both of which bind less tightly
+/// than the power operator.
+///
+/// # Arguments
+///
+/// * `node` - The Vyper AST node.
+fn node_has_prefix_operator(node: &VyperAST) -> bool {
+    match node.get_str_for_key("ast_type") {
+        Some("UnaryOp") => true,
+        Some("Int" | "Decimal") => match node.get("value") {
+            Some(value) => value.to_string().trim_start_matches('"').starts_with('-'),
+            None => false,
+        },
+        _ => false,
     }
 }
 
@@ -376,7 +437,7 @@ impl NodePrinter<VyperAST> for SubscriptPrinter {
         node: &VyperAST,
     ) {
         if let Some(value_node) = node.get("value") {
-            traverse_sub_node_and_print(printer, stream, factory, value_node);
+            write_primary_node(printer, stream, factory, value_node);
         }
 
         if let Some(slice_node) = node.get("slice") {
@@ -629,7 +690,7 @@ impl NodePrinter<VyperAST> for AttributePrinter {
         node: &VyperAST,
     ) {
         if let Some(value_node) = node.get("value") {
-            traverse_sub_node_and_print(printer, stream, factory, value_node);
+            write_primary_node(printer, stream, factory, value_node);
         }
         write_token(printer, stream, ".");
         if let Some(attribute_str) = node.get_str_for_key("attr") {
@@ -731,7 +792,12 @@ impl NodePrinter<VyperAST> for BinOpPrinter {
         node: &VyperAST,
     ) {
         if let Some(left_node) = node.get("left") {
-            write_node_with_parens_maybe(printer, stream, factory, left_node);
+            let is_power = node.get_str_for_key("op/ast_type") == Some("Pow");
+            if is_power && node_has_prefix_operator(left_node) {
+                write_node_with_parens_if(printer, stream, factory, left_node, true);
+            } else {
+                write_node_with_parens_maybe(printer, stream, factory, left_node);
+            }
         }
         if let Some(op_node) = node.get("op") {
             if let Some(ast_type_str) = op_node.get_str_for_key("ast_type") {
@@ -907,7 +973,7 @@ impl NodePrinter<VyperAST> for CallPrinter {
         node: &VyperAST,
     ) {
         if let Some(func_node) = node.get("func") {
-            traverse_sub_node_and_print(printer, stream, factory, func_node);
+            write_primary_node(printer, stream, factory, func_node);
         }
         write_token(printer, stream, "(");
         write_args_as_array(printer, stream, factory, node);
-- 
2.43.0


From 2dfe0bab0d442b7a6569f11890531fa63e1bc6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:58 +0000
Subject: [PATCH 37/71] fix: print every operand of Vyper's and and or
 operations

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index cac11d3..a14bf7b 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -830,18 +830,18 @@ impl NodePrinter<VyperAST> for BoolOpPrinter {
                     return;
                 }
 
-                let left = &values_array[0];
-                let right = &values_array[1];
+                write_node_with_parens_maybe(printer, stream, factory, &values_array[0]);
 
-                write_node_with_parens_maybe(printer, stream, factory, left);
-                write_space(printer, stream);
+                for value in &values_array[1..] {
+                    write_space(printer, stream);
 
-                if let Some(op_node) = node.get("op") {
-                    traverse_sub_node_and_print(printer, stream, factory, op_node);
-                }
+                    if let Some(op_node) = node.get("op") {
+                        traverse_sub_node_and_print(printer, stream, factory, op_node);
+                    }
 
-                write_space(printer, stream);
-                write_node_with_parens_maybe(printer, stream, factory, right);
+                    write_space(printer, stream);
+                    write_node_with_parens_maybe(printer, stream, factory, value);
+                }
             }
         }
     }
-- 
2.43.0


From f766481f40834933e98445ec8e312ee9ec785c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:59 +0000
Subject: [PATCH 38/71] fix: print the minus sign of Vyper's unary operations

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index a14bf7b..9d78688 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -1033,6 +1033,8 @@ impl NodePrinter<VyperAST> for UnaryOpPrinter {
                     needs_space = true;
                 } else if op_str == "Invert" {
                     write_token(printer, stream, "~");
+                } else if op_str == "USub" {
+                    write_token(printer, stream, "-");
                 }
             }
         }
-- 
2.43.0


From 9d57993538815ad8c080d64d11cb7e0a1921cc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:59 +0000
Subject: [PATCH 39/71] fix: print Vyper's conditional expressions

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 28 +++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index 9d78688..b6ee778 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -1047,6 +1047,33 @@ impl NodePrinter<VyperAST> for UnaryOpPrinter {
     }
 }
 
+struct IfExpPrinter {}
+
+impl NodePrinter<VyperAST> for IfExpPrinter {
+    fn print_node(
+        &mut self,
+        printer: &mut PrettyPrinter,
+        stream: &mut dyn Write,
+        factory: &dyn NodePrinterFactory<VyperAST>,
+        node: &VyperAST,
+    ) {
+        let is_if_exp = |n: &VyperAST| n.get_str_for_key("ast_type") == Some("IfExp");
+        if let Some(body_node) = node.get("body") {
+            let needs_parens = is_if_exp(body_node);
+            write_node_with_parens_if(printer, stream, factory, body_node, needs_parens);
+        }
+        write_token(printer, stream, " if ");
+        if let Some(test_node) = node.get("test") {
+            let needs_parens = is_if_exp(test_node);
+            write_node_with_parens_if(printer, stream, factory, test_node, needs_parens);
+        }
+        write_token(printer, stream, " else ");
+        if let Some(orelse_node) = node.get("orelse") {
+            traverse_sub_node_and_print(printer, stream, factory, orelse_node);
+        }
+    }
+}
+
 struct InterfaceDefPrinter {}
 
 impl NodePrinter<VyperAST> for InterfaceDefPrinter {
@@ -1660,6 +1687,7 @@ impl NodePrinterFactory<VyperAST> for VyperNodePrinterFactory {
                 "Call" => Box::new(CallPrinter {}),
                 "NameConstant" => Box::new(NameConstantPrinter {}),
                 "UnaryOp" => Box::new(UnaryOpPrinter {}),
+                "IfExp" => Box::new(IfExpPrinter {}),
                 "InterfaceDef" => Box::new(InterfaceDefPrinter {}),
                 "StructDef" => Box::new(StructDefPrinter {}),
                 "For" => Box::new(ForPrinter {}),
-- 
2.43.0


From 27c3104ddaf7c38851b2853264da4734f9a8035c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:00 +0000
Subject: [PATCH 40/71] fix: print Vyper's shift and floor division operators

---
 mutagenyx_lib/src/vyper/operators.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mutagenyx_lib/src/vyper/operators.rs b/mutagenyx_lib/src/vyper/operators.rs
index 3c44a84..303e7ee 100644
--- a/mutagenyx_lib/src/vyper/operators.rs
+++ b/mutagenyx_lib/src/vyper/operators.rs
@@ -7,6 +7,7 @@ pub fn get_python_operator_map() -> HashMap<&'static str, &'static str> {
     operator_map.insert("Sub", "-");
     operator_map.insert("Mult", "*");
     operator_map.insert("Div", "/");
+    operator_map.insert("FloorDiv", "//");
     operator_map.insert("Mod", "%");
     operator_map.insert("Pow", "**");
     operator_map.insert("And", "&&");
@@ -14,6 +15,8 @@ pub fn get_python_operator_map() -> HashMap<&'static str, &'static str> {
     operator_map.insert("BitAnd", "&");
     operator_map.insert("BitOr", "|");
     operator_map.insert("BitXor", "^");
+    operator_map.insert("LShift", "<<");
+    operator_map.insert("RShift", ">>");
     operator_map.insert("Eq", "==");
     operator_map.insert("NotEq", "!=");
     operator_map.insert("Gt", ">");
-- 
2.43.0


From 7880d54bd3a2ffcf1697b786eefa6b927ca0c217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:00 +0000
Subject: [PATCH 41/71] fix: separate only what precedes them from the keywords
 of a Vyper call

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index b6ee778..c43e9a2 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -980,8 +980,10 @@ impl NodePrinter<VyperAST> for CallPrinter {
         if let Some(keywords_node) = node.get("keywords") {
             if let Some(keywords_array) = keywords_node.as_array() {
                 if !keywords_array.is_empty() {
-                    write_token(printer, stream, ",");
-                    write_space(printer, stream);
+                    if matches!(node.get_array_for_key("args"), Some(args) if !args.is_empty()) {
+                        write_token(printer, stream, ",");
+                        write_space(printer, stream);
+                    }
                     write_key_of_node_as_array(printer, stream, factory, "keywords", node);
                 }
             }
-- 
2.43.0


From 5fec22e6923f70f76d86e8e112150928ea1c889b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:00 +0000
Subject: [PATCH 42/71] fix: escape the contents of Vyper strings

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index c43e9a2..8a7db1e 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -333,6 +333,27 @@ fn write_value_string_as_token(
     }
 }
 
+/// Return the text with escape sequences for the characters that may not appear in a string literal.
+///
+/// # Arguments
+///
+/// * `text` - The contents of the string literal.
+fn escape_string(text: &str) -> String {
+    let mut escaped = String::new();
+    for c in text.chars() {
+        match c {
+            '\\' => escaped.push_str("\\\\"),
+            '"' => escaped.push_str("\\\""),
+            '\n' => escaped.push_str("\\n"),
+            '\r' => escaped.push_str("\\r"),
+            '\t' => escaped.push_str("\\t"),
+            c if c.is_ascii_control() => escaped += format!("\\x{:02x}", c as u32).as_str(),
+            c => escaped.push(c),
+        }
+    }
+    escaped
+}
+
 /// Return the string containing the pretty-printed form of `node`.
 ///
 /// # Arguments
@@ -883,7 +904,7 @@ impl NodePrinter<VyperAST> for StrPrinter {
         node: &VyperAST,
     ) {
         if let Some(value_str) = node.get_str_for_key("value") {
-            write_string(printer, stream, value_str);
+            write_string(printer, stream, &escape_string(value_str));
         }
     }
 }
-- 
2.43.0


From bb9933701fcfa7a138746a431e179c201a72d571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:01 +0000
Subject: [PATCH 43/71] fix: escape the contents of Vyper documentation strings

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 25 +++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index 8a7db1e..d7e8fd1 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -354,6 +354,19 @@ fn escape_string(text: &str) -> String {
     escaped
 }
 
+/// Return the text with escape sequences for what would end or change a triple quoted string.
+///
+/// # Arguments
+///
+/// * `text` - The contents of the documentation string.
+fn escape_doc_string(text: &str) -> String {
+    let mut escaped = text.replace('\\', "\\\\").replace("\"\"\"", "\\\"\\\"\\\"");
+    if escaped.ends_with('"') {
+        escaped.insert(escaped.len() - 1, '\\');
+    }
+    escaped
+}
+
 /// Return the string containing the pretty-printed form of `node`.
 ///
 /// # Arguments
@@ -583,12 +596,12 @@ impl NodePrinter<VyperAST> for FunctionDefPrinter {
                 if let Some(doc_string) = doc_string_node.get_str_for_key("value") {
                     write_newline(printer, stream);
                     write_indent(printer, stream);
-                    let doc_string_text = String::from(doc_string);
+                    let doc_string_text = escape_doc_string(doc_string);
                     if let Some(_newline_index) = doc_string_text.find('\n') {
-                        write_triple_string(printer, stream, doc_string);
+                        write_triple_string(printer, stream, &doc_string_text);
                     } else {
                         write_token(printer, stream, "\"\"\"");
-                        write_flowable_text(printer, stream, doc_string, "");
+                        write_flowable_text(printer, stream, &doc_string_text, "");
                         write_token(printer, stream, "\"\"\"");
                     }
                     write_newline(printer, stream);
@@ -921,12 +934,12 @@ impl NodePrinter<VyperAST> for ModulePrinter {
     ) {
         if let Some(doc_string_node) = node.get("doc_string") {
             if let Some(doc_string) = doc_string_node.get_str_for_key("value") {
-                let doc_text = String::from(doc_string);
+                let doc_text = escape_doc_string(doc_string);
                 if let Some(_newline_index) = doc_text.find('\n') {
-                    write_triple_string(printer, stream, doc_string)
+                    write_triple_string(printer, stream, &doc_text)
                 } else {
                     write_token(printer, stream, "\"\"\"");
-                    write_flowable_text(printer, stream, doc_string, "");
+                    write_flowable_text(printer, stream, &doc_text, "");
                     write_token(printer, stream, "\"\"\"");
                 }
                 write_newline(printer, stream);
-- 
2.43.0


From 28507a49db06626e4f5064a674d2f8946e0bfed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:01 +0000
Subject: [PATCH 44/71] fix: print Vyper's implements declarations, ellipses,
 transient variables and relative imports

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 47 ++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index d7e8fd1..800e991 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -447,6 +447,14 @@ impl NodePrinter<VyperAST> for VariableDeclPrinter {
                 }
             }
 
+            if let Some(transient) = node.get_bool_for_key("is_transient") {
+                if transient {
+                    close_parens_needed += 1;
+                    write_token(printer, stream, "transient");
+                    write_token(printer, stream, "(");
+                }
+            }
+
             if let Some(annotation_node) = node.get("annotation") {
                 traverse_sub_node_and_print(printer, stream, factory, annotation_node);
             }
@@ -1395,12 +1403,16 @@ impl NodePrinter<VyperAST> for ImportFromPrinter {
     ) {
         write_token(printer, stream, "from");
         write_space(printer, stream);
+        let level = node.get_int_for_key("level").unwrap_or(0);
+        for _ in 0..level {
+            write_token(printer, stream, ".");
+        }
         if let Some(module_node) = node.get("module") {
             if !module_node.is_null() {
                 if let Some(module_str) = module_node.as_str() {
                     write_token(printer, stream, module_str);
                 }
-            } else {
+            } else if level < 1 {
                 write_token(printer, stream, ".");
             }
             write_space(printer, stream);
@@ -1423,6 +1435,37 @@ impl NodePrinter<VyperAST> for ImportFromPrinter {
     }
 }
 
+struct ImplementsDeclPrinter {}
+
+impl NodePrinter<VyperAST> for ImplementsDeclPrinter {
+    fn print_node(
+        &mut self,
+        printer: &mut PrettyPrinter,
+        stream: &mut dyn Write,
+        factory: &dyn NodePrinterFactory<VyperAST>,
+        node: &VyperAST,
+    ) {
+        write_token(printer, stream, "implements: ");
+        if let Some(annotation_node) = node.get("annotation") {
+            traverse_sub_node_and_print(printer, stream, factory, annotation_node);
+        }
+    }
+}
+
+struct EllipsisPrinter {}
+
+impl NodePrinter<VyperAST> for EllipsisPrinter {
+    fn print_node(
+        &mut self,
+        printer: &mut PrettyPrinter,
+        stream: &mut dyn Write,
+        _factory: &dyn NodePrinterFactory<VyperAST>,
+        _node: &VyperAST,
+    ) {
+        write_token(printer, stream, "...");
+    }
+}
+
 struct EventDefPrinter {}
 
 impl NodePrinter<VyperAST> for EventDefPrinter {
@@ -1736,6 +1779,8 @@ impl NodePrinterFactory<VyperAST> for VyperNodePrinterFactory {
                 "Raise" => Box::new(RaisePrinter {}),
                 "Import" => Box::new(ImportPrinter {}),
                 "ImportFrom" => Box::new(ImportFromPrinter {}),
+                "ImplementsDecl" => Box::new(ImplementsDeclPrinter {}),
+                "Ellipsis" => Box::new(EllipsisPrinter {}),
                 "EventDef" => Box::new(EventDefPrinter {}),
                 "Log" => Box::new(LogPrinter {}),
                 "Comment" => Box::new(CommentPrinter {}),
-- 
2.43.0


From ef84c3a98f30f2de04e3a7ba28f7571966d2fd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:17 +0000
Subject: [PATCH 45/71] fix: keep integers of any size exact in JSON syntax
 trees

---
 mutagenyx_lib/src/json.rs                 | 55 +++++++++++++++++++----
 mutagenyx_lib/src/vyper/pretty_printer.rs | 11 +++--
 2 files changed, 53 insertions(+), 13 deletions(-)

diff --git a/mutagenyx_lib/src/json.rs b/mutagenyx_lib/src/json.rs
index 210f4f4..800b3a6 100644
--- a/mutagenyx_lib/src/json.rs
+++ b/mutagenyx_lib/src/json.rs
@@ -7,7 +7,7 @@ use crate::id::Id;
 use crate::json_ast_id_maker::JSONIDMaker;
 use serde_json::{from_str, json, Map, Value};
 use std::fs::File;
-use std::io::BufReader;
+use std::io::Read;
 
 /// Reads the contents of the JSON in the file named by `file_name`.
 ///
@@ -24,19 +24,56 @@ use std::io::BufReader;
 /// [`serde_json::Error`] which the function will return as a [`MutagenyxError::JSON`] enum that
 /// wraps the error from `serde_json`.
 pub fn load_json_from_file_with_name(file_name: &str) -> Result<Value, MutagenyxError> {
-    let file = match File::open(file_name) {
+    let mut file = match File::open(file_name) {
         Ok(f) => f,
         Err(e) => return Err(MutagenyxError::from(e)),
     };
 
-    let reader = BufReader::new(file);
+    let mut text = String::new();
+    if let Err(e) = file.read_to_string(&mut text) {
+        return Err(MutagenyxError::from(e));
+    }
 
-    let v = match serde_json::from_reader(reader) {
-        Ok(val) => val,
-        Err(e) => return Err(MutagenyxError::from(e)),
-    };
+    new_json_node(&text)
+}
 
-    Ok(v)
+/// Return the JSON in `text` with strings in place of the integers that are too large for a JSON
+/// [`Value`], which would only keep an approximation of them.
+///
+/// # Arguments
+///
+/// * `text` - The JSON text.
+fn quote_large_integers(text: &str) -> String {
+    let mut result = String::with_capacity(text.len());
+    let mut rest = text;
+    while let Some(c) = rest.chars().next() {
+        let length = if c == '"' {
+            // Skip the string.
+            let mut escaped = false;
+            rest[1..]
+                .find(|c| {
+                    let ends = c == '"' && !escaped;
+                    escaped = c == '\\' && !escaped;
+                    ends
+                })
+                .map_or(rest.len(), |end| end + 2)
+        } else if c == '-' || c.is_ascii_digit() {
+            rest.find(|c: char| !(c.is_ascii_digit() || "+-.eE".contains(c)))
+                .unwrap_or(rest.len())
+        } else {
+            c.len_utf8()
+        };
+        let (token, remainder) = rest.split_at(length);
+        let digits = token.strip_prefix('-').unwrap_or(token);
+        let is_integer = !digits.is_empty() && digits.chars().all(|c| c.is_ascii_digit());
+        if is_integer && token.parse::<i64>().is_err() && token.parse::<u64>().is_err() {
+            result += &format!("\"{token}\"");
+        } else {
+            result += token;
+        }
+        rest = remainder;
+    }
+    result
 }
 
 /// Add a '/' character as a prefix to a string slice.
@@ -60,7 +97,7 @@ fn json_path(path: &str) -> String {
 ///
 /// * `text` - The string slice referring to the text that contains JSON.
 pub fn new_json_node(text: &str) -> Result<Value, MutagenyxError> {
-    match from_str(text) {
+    match from_str(&quote_large_integers(text)) {
         Ok(n) => Ok(n),
         Err(e) => Err(MutagenyxError::from(e)),
     }
diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index 800e991..88f9ab0 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -790,10 +790,13 @@ impl NodePrinter<VyperAST> for IntPrinter {
         _factory: &dyn NodePrinterFactory<VyperAST>,
         node: &VyperAST,
     ) {
-        if let Some(value) = node.get_int_for_key("value") {
-            write_token(printer, stream, &value.to_string());
-        } else if let Some(value) = node.get_float_for_key("value") {
-            write_token(printer, stream, &value.to_string());
+        if let Some(value) = node.get("value") {
+            if value.is_number() {
+                write_token(printer, stream, &value.to_string());
+            } else {
+                // A string holds the digits of an integer that is too large for a JSON number.
+                write_value_string_as_token(printer, stream, node);
+            }
         }
     }
 }
-- 
2.43.0


From 23376aabc4238688938e4900cbfd6f561205b0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:17 +0000
Subject: [PATCH 46/71] fix: mutate Vyper integers of any size and into
 different values

---
 mutagenyx_lib/src/vyper/mutators.rs | 36 +++++++++++++++--------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/mutators.rs b/mutagenyx_lib/src/vyper/mutators.rs
index b6b93f7..1066cb2 100644
--- a/mutagenyx_lib/src/vyper/mutators.rs
+++ b/mutagenyx_lib/src/vyper/mutators.rs
@@ -12,7 +12,7 @@ use crate::pretty_printer::PrettyPrinter;
 use crate::vyper::ast::VyperAST;
 use crate::vyper::operators::get_python_operator_map;
 use crate::vyper::pretty_printer::VyperNodePrinterFactory;
-use num::{Float, Integer};
+use num::{BigInt, Float, Integer};
 use openssl::hash::{Hasher, MessageDigest};
 use rand::seq::SliceRandom;
 use rand::Rng;
@@ -1377,38 +1377,40 @@ impl Mutator<VyperAST> for IntegerMutator {
         let mut hasher = Hasher::new(MessageDigest::sha256())?;
 
         let original_value_s = pretty_print_node(node);
+        let original_value = match original_value_s.parse::<BigInt>() {
+            Ok(value) => value,
+            Err(_e) => {
+                return Err(MutagenyxError::MalformedNode(
+                    String::from("Int"),
+                    String::from("value"),
+                ))
+            }
+        };
 
         match rand.next_u64() % 3_u64 {
             0 => {
                 hasher.update(&0_u64.to_ne_bytes())?;
 
                 // Add one to the integer constant.
-                if let Some(value_node) = node.get("value") {
-                    if let Some(mut value) = value_node.as_i64() {
-                        value += 1;
-                        let json_value = json![value];
-                        node.set_node_for_key("value", json_value);
-                    }
-                }
+                let value: BigInt = original_value + 1;
+                node.set_node_for_key("value", new_json_node(&value.to_string())?);
             }
             1 => {
                 hasher.update(&1_u64.to_ne_bytes())?;
 
                 // Subtract one from the integer constant.
-                if let Some(value_node) = node.get("value") {
-                    if let Some(mut value) = value_node.as_i64() {
-                        value -= 1;
-                        let json_value = json![value];
-                        node.set_node_for_key("value", json_value);
-                    }
-                }
+                let value: BigInt = original_value - 1;
+                node.set_node_for_key("value", new_json_node(&value.to_string())?);
             }
             2 => {
                 hasher.update(&2_u64.to_ne_bytes())?;
 
                 // Generate a random number.
-                let value = rand.next_u64();
-                let json_value = json![value as i64];
+                let mut value = rand.next_u64() as i64;
+                while BigInt::from(value) == original_value {
+                    value = rand.next_u64() as i64;
+                }
+                let json_value = json![value];
                 node.set_node_for_key("value", json_value);
             }
             _ => (),
-- 
2.43.0


From c777f2e1cb7cb3c023469bfa776a9801db2fca0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:18 +0000
Subject: [PATCH 47/71] fix: assign decimal literals and different values in
 Vyper assignments

---
 mutagenyx_lib/src/vyper/mutators.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/mutators.rs b/mutagenyx_lib/src/vyper/mutators.rs
index 1066cb2..d0d2869 100644
--- a/mutagenyx_lib/src/vyper/mutators.rs
+++ b/mutagenyx_lib/src/vyper/mutators.rs
@@ -51,7 +51,7 @@ fn new_float_constant_node<F: Float + fmt::Display>(value: F) -> Result<VyperAST
         "{{\
             \"node_id\": 9999998,
             \"ast_type\": \"Decimal\",
-            \"value\": \"{value}\"
+            \"value\": \"{value:.1}\"
         }}"
     );
     new_json_node(&node_str)
@@ -528,9 +528,12 @@ impl Mutator<VyperAST> for AssignmentMutator {
                 hasher.update(&[2])?;
 
                 let random_boolean = rand.next_u64() % 2_u64;
-                let actual_boolean = matches!(random_boolean, 1);
+                let mut actual_boolean = matches!(random_boolean, 1);
+                if value_node.get_bool_for_key("value") == Some(actual_boolean) {
+                    actual_boolean = !actual_boolean;
+                }
 
-                hasher.update(&random_boolean.to_ne_bytes())?;
+                hasher.update(&[actual_boolean as u8])?;
 
                 let new_node = match new_boolean_constant_node(actual_boolean) {
                     Ok(n) => n,
-- 
2.43.0


From a57e6dc3ae723633affe19ad016b4ab0927b611c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:18 +0000
Subject: [PATCH 48/71] fix: ask only for known Vyper operators in the
 SwapOperatorArguments algorithm

---
 mutagenyx_lib/src/vyper/mutators.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/mutators.rs b/mutagenyx_lib/src/vyper/mutators.rs
index d0d2869..4312949 100644
--- a/mutagenyx_lib/src/vyper/mutators.rs
+++ b/mutagenyx_lib/src/vyper/mutators.rs
@@ -1474,9 +1474,8 @@ impl Mutator<VyperAST> for SwapOperatorArgumentsMutator {
             if ast_type == "BinOp" || ast_type == "BoolOp" || ast_type == "Compare" {
                 if let Some(op_node) = node.get("op") {
                     if let Some(op_string) = op_node.get_str_for_key("ast_type") {
-                        let converted_operator = self.operator_map[&op_string];
-                        if self.valid_operators.contains(&converted_operator) {
-                            return true;
+                        if let Some(converted_operator) = self.operator_map.get(op_string) {
+                            return self.valid_operators.contains(converted_operator);
                         }
                     }
                 }
-- 
2.43.0


From c5c303e04582351fd76a2a74c6c6ad658a7e27e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:18 +0000
Subject: [PATCH 49/71] fix: return a value of the declared type after deleting
 the only statement of a Vyper function

---
 mutagenyx_lib/src/vyper/mutators.rs | 152 +++++++++++++++-------------
 1 file changed, 81 insertions(+), 71 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/mutators.rs b/mutagenyx_lib/src/vyper/mutators.rs
index 4312949..901026a 100644
--- a/mutagenyx_lib/src/vyper/mutators.rs
+++ b/mutagenyx_lib/src/vyper/mutators.rs
@@ -22,7 +22,6 @@ use serde_json::json;
 use std::cmp::Ordering;
 use std::collections::HashMap;
 use std::fmt;
-use std::fmt::Formatter;
 
 /// Return a new integer literal node representing an integer literal number.
 ///
@@ -204,51 +203,72 @@ fn pretty_print_node(node: &VyperAST) -> String {
     String::from(s)
 }
 
-enum ListLikeThing {
-    Tuple,
-    List,
+/// Return the kind of the Vyper type with the name `type_name`: "bool", "uint", "int", "string", or
+/// the empty string for any other type.
+///
+/// # Arguments
+///
+/// * `type_name` - The name of the type.
+fn vyper_type_kind(type_name: &str) -> &'static str {
+    let is_width = |s: &str| !s.is_empty() && s.chars().all(|c| c.is_ascii_digit());
+    if type_name == "bool" {
+        return "bool";
+    }
+    if type_name == "string" {
+        return "string";
+    }
+    match (
+        type_name.strip_prefix("uint"),
+        type_name.strip_prefix("int"),
+    ) {
+        (Some(width), _) if is_width(width) => "uint",
+        (_, Some(width)) if is_width(width) => "int",
+        _ => "",
+    }
 }
 
-impl fmt::Display for ListLikeThing {
-    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
-        let text = match self {
-            ListLikeThing::Tuple => "Tuple",
-            ListLikeThing::List => "List",
-        };
-        write!(f, "{}", text)
-    }
+/// Return a node for the expression `empty(T)`, the default value of the type `T`.
+///
+/// # Arguments
+///
+/// * `type_node` - The node of the type.
+fn new_empty_call_node(type_node: VyperAST) -> Result<VyperAST, MutagenyxError> {
+    let node_str = "{\
+            \"node_id\": 9999992,
+            \"ast_type\": \"Call\",
+            \"func\": {\
+                \"node_id\": 9999990,
+                \"ast_type\": \"Name\",
+                \"id\": \"empty\"
+            },
+            \"args\": [],
+            \"keywords\": []
+        }";
+
+    let mut node = new_json_node(node_str)?;
+    node.set_node_for_key("args", json![[type_node]]);
+    Ok(node)
 }
 
-/// Return a `kind` node with `size` members whose value is all None
+/// Return a tuple node with the default values of the types in `type_nodes`.
 ///
 /// # Arguments
 ///
-/// * `size` - The number of None elements in the tuple.
-/// * `kind` - The kind of list like thing to make.
-fn new_list_like_thing_node(size: u32, kind: ListLikeThing) -> Result<VyperAST, MutagenyxError> {
-    let mut none_array: Vec<VyperAST> = vec![];
-    for _i in 0..size {
-        let node_str = "{\
-                \"node_id\": 9999992,
-                \"ast_type\": \"NameConstant\",
-                \"value\": null
-            }";
-
-        let node = new_json_node(node_str)?;
-        none_array.push(node);
+/// * `type_nodes` - The nodes of the types.
+fn new_tuple_of_empty_values_node(type_nodes: &[VyperAST]) -> Result<VyperAST, MutagenyxError> {
+    let mut values: Vec<VyperAST> = vec![];
+    for type_node in type_nodes {
+        values.push(new_empty_call_node(type_node.clone())?);
     }
 
-    let node_str = format!(
-        "{{\
+    let node_str = "{\
             \"node_id\": 9999991,
-            \"ast_type\": \"{kind}\",
+            \"ast_type\": \"Tuple\",
             \"elements\": []
-        }}"
-    );
+        }";
 
-    let mut tuple_node = new_json_node(&node_str)?;
-    let none_array_node = json![none_array];
-    tuple_node.set_node_for_key("elements", none_array_node);
+    let mut tuple_node = new_json_node(node_str)?;
+    tuple_node.set_node_for_key("elements", json![values]);
     Ok(tuple_node)
 }
 
@@ -629,7 +649,7 @@ impl Mutator<VyperAST> for AssignmentMutator {
 /// ```python
 /// def foo() -> (int128, int128):
 ///     # return 2, 3
-///     return (None, None)
+///     return empty(int128), empty(int128)
 /// ```
 struct DeleteStatementMutator {
     /// Comment node detailing mutation.
@@ -645,7 +665,7 @@ impl DeleteStatementMutator {
     pub fn new() -> DeleteStatementMutator {
         DeleteStatementMutator {
             comment_node: None,
-            single_line_statements_to_avoid: vec!["view", "nonpayable", "payable"],
+            single_line_statements_to_avoid: vec!["pure", "view", "nonpayable", "payable"],
         }
     }
 }
@@ -729,8 +749,8 @@ impl Mutator<VyperAST> for DeleteStatementMutator {
                         if let Some(ast_type_str) = returns_node.get_str_for_key("ast_type") {
                             if ast_type_str == "Name" {
                                 if let Some(id_str) = returns_node.get_str_for_key("id") {
-                                    match &id_str[..3] {
-                                        "boo" => {
+                                    match vyper_type_kind(id_str) {
+                                        "bool" => {
                                             let random_boolean = rand.next_u64() % 2_u64;
                                             let actual_boolean = matches!(random_boolean, 1);
 
@@ -761,7 +781,7 @@ impl Mutator<VyperAST> for DeleteStatementMutator {
 
                                             body_array.push(return_node);
                                         }
-                                        "uin" => {
+                                        "uint" => {
                                             // We could figure out the numeric range, but instead
                                             // we just return a random value between 0-10.
                                             let number = rand.next_u64() % 10_u64;
@@ -822,7 +842,7 @@ impl Mutator<VyperAST> for DeleteStatementMutator {
 
                                             body_array.push(return_node);
                                         }
-                                        "str" => {
+                                        "string" => {
                                             // Use our friend lorem ipsum.
                                             let text = "Lorem ipsum dolor sit amet, consectetur adipiscing elit, sed do eiusmod tempor incididunt ut labore et dolore magna aliqua.";
 
@@ -851,43 +871,29 @@ impl Mutator<VyperAST> for DeleteStatementMutator {
 
                                             body_array.push(return_node);
                                         }
-                                        unrecognized_type => {
-                                            return Err(MutagenyxError::UnrecognizedLanguageType(
-                                                String::from(unrecognized_type),
-                                            ))
+                                        _ => {
+                                            body_array.push(new_return_node(new_empty_call_node(
+                                                returns_node.clone(),
+                                            )?)?);
                                         }
                                     }
                                 }
-                            } else if ast_type_str == "Pass" {
-                                // We already have a pass node, just skip out.
-                            } else if ast_type_str == "Tuple" || ast_type_str == "List" {
+                            } else if ast_type_str == "Tuple" {
                                 if let Some(elements_node) = returns_node.get("elements") {
                                     if let Some(elements_array) = elements_node.as_array() {
-                                        let node_type = match ast_type_str {
-                                            "Tuple" => ListLikeThing::Tuple,
-                                            "List" => ListLikeThing::List,
-                                            unrecognized_type => {
-                                                return Err(
-                                                    MutagenyxError::UnrecognizedLanguageType(
-                                                        String::from(unrecognized_type),
-                                                    ),
-                                                )
-                                            }
-                                        };
-
-                                        let list_like_node = match new_list_like_thing_node(
-                                            elements_array.len() as u32,
-                                            node_type,
-                                        ) {
-                                            Ok(node) => node,
-                                            Err(_e) => {
-                                                return Err(MutagenyxError::UnableToGenerateNode(
-                                                    "list",
-                                                ))
-                                            }
-                                        };
+                                        let tuple_node =
+                                            match new_tuple_of_empty_values_node(elements_array) {
+                                                Ok(node) => node,
+                                                Err(_e) => {
+                                                    return Err(
+                                                        MutagenyxError::UnableToGenerateNode(
+                                                            "list",
+                                                        ),
+                                                    )
+                                                }
+                                            };
 
-                                        let return_node = match new_return_node(list_like_node) {
+                                        let return_node = match new_return_node(tuple_node) {
                                             Ok(node) => node,
                                             Err(_e) => {
                                                 return Err(MutagenyxError::UnableToGenerateNode(
@@ -898,6 +904,10 @@ impl Mutator<VyperAST> for DeleteStatementMutator {
                                         body_array.push(return_node);
                                     }
                                 }
+                            } else {
+                                body_array.push(new_return_node(new_empty_call_node(
+                                    returns_node.clone(),
+                                )?)?);
                             }
                         } else {
                             let new_node = match new_pass_node() {
-- 
2.43.0


From db11f0c737c2fcd52bee3319756019d6d78aca90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:19 +0000
Subject: [PATCH 50/71] fix: replace Vyper calls only with arguments that are
 not literals

---
 mutagenyx_lib/src/vyper/mutators.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/mutators.rs b/mutagenyx_lib/src/vyper/mutators.rs
index 901026a..844ec51 100644
--- a/mutagenyx_lib/src/vyper/mutators.rs
+++ b/mutagenyx_lib/src/vyper/mutators.rs
@@ -187,6 +187,18 @@ fn new_unary_op_node(operator: &str, operand: VyperAST) -> Result<VyperAST, Muta
     Ok(new_node)
 }
 
+/// Return true if `node` is a literal value.
+///
+/// # Arguments
+///
+/// * `node` - The node to look at.
+fn is_literal_node(node: &VyperAST) -> bool {
+    matches!(
+        node.get_str_for_key("ast_type"),
+        Some("Int" | "Decimal" | "Hex" | "Str" | "Bytes" | "NameConstant")
+    )
+}
+
 /// Return the string containing the pretty-printed form of `node`.
 ///
 /// # Arguments
@@ -978,10 +990,8 @@ impl Mutator<VyperAST> for FunctionCallMutator {
             if n == "Call" {
                 if let Some(args) = node.get("args") {
                     if let Some(args_array) = args.as_array() {
-                        if !args_array.is_empty() {
-                            // We have to have a function call with arguments.
-                            return true;
-                        }
+                        // We have to have a function call with an argument that is not a literal.
+                        return args_array.iter().any(|arg| !is_literal_node(arg));
                     }
                 }
             }
@@ -1005,14 +1015,12 @@ impl Mutator<VyperAST> for FunctionCallMutator {
         if let Some(args_node) = node.get("args") {
             if let Some(args_array) = args_node.as_array() {
                 loop {
-                    // Randomly pick an array member, but avoid Int/Str nodes.
+                    // Randomly pick an array member, but avoid literals.
                     let index = (rand.next_u64() % args_array.len() as u64) as usize;
 
                     let value = &args_array[index];
-                    if let Some(node_type) = value.get_str_for_key("nodeType") {
-                        if node_type == "Int" || node_type == "Str" {
-                            continue;
-                        }
+                    if is_literal_node(value) {
+                        continue;
                     }
 
                     hasher.update(&index.to_ne_bytes())?;
-- 
2.43.0


From c8f455c57698888f542cf9825d7f6ff94e79d12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:19 +0000
Subject: [PATCH 51/71] fix: offer Vyper bodies to the SwapLines algorithm only
 with two statements to swap

---
 mutagenyx_lib/src/vyper/mutators.rs | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/mutators.rs b/mutagenyx_lib/src/vyper/mutators.rs
index 844ec51..c27b091 100644
--- a/mutagenyx_lib/src/vyper/mutators.rs
+++ b/mutagenyx_lib/src/vyper/mutators.rs
@@ -1611,25 +1611,13 @@ impl Mutator<VyperAST> for SwapLinesMutator {
             if ast_type == "FunctionDef" || ast_type == "For" || ast_type == "If" {
                 if let Some(body_node) = node.get(&self.key) {
                     if let Some(body_array) = body_node.as_array() {
-                        if body_array.len() >= 2 {
-                            let mut found_return_statement = false;
-                            for value in body_array {
-                                if let Some(value_ast_type) = value.get_str_for_key("ast_type") {
-                                    if value_ast_type == "Return" {
-                                        found_return_statement = true;
-                                        break;
-                                    }
-                                }
-                            }
-
-                            // If the body of the function def has a return statement, then there
-                            // must be at least 3 statements in the body in order to swap (but not
-                            // swap a return statement) statements.  If there are no return statements
-                            // then we can just go ahead and swap.
-                            if !found_return_statement || body_array.len() >= 3 {
-                                return true;
-                            }
-                        }
+                        // The algorithm does not swap return statements, so there must be at
+                        // least two other statements in the body.
+                        let swappable_statements = body_array
+                            .iter()
+                            .filter(|value| value.get_str_for_key("ast_type") != Some("Return"))
+                            .count();
+                        return swappable_statements >= 2;
                     }
                 }
             }
-- 
2.43.0


From 9cb46d3b5e3f140eb27aa56e023af8bd44da0fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:19 +0000
Subject: [PATCH 52/71] fix: close the quote in the comments of the Vyper
 UnaryOp algorithm

---
 mutagenyx_lib/src/vyper/mutators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/vyper/mutators.rs b/mutagenyx_lib/src/vyper/mutators.rs
index c27b091..03e2d81 100644
--- a/mutagenyx_lib/src/vyper/mutators.rs
+++ b/mutagenyx_lib/src/vyper/mutators.rs
@@ -1788,7 +1788,7 @@ impl Mutator<VyperAST> for UnaryOpMutator {
             hasher.update(new_node_s.as_bytes())?;
 
             let comment_text = format!(
-                "UnaryOp Mutator: Replaced '{}' with '{}",
+                "UnaryOp Mutator: Replaced '{}' with '{}'",
                 original_node_s, new_node_s
             );
             if let Ok(comment_node) = new_comment_node(&comment_text) {
-- 
2.43.0


From ce8315d8c911bfc57b2cbe3d994d5e05a279f7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:20 +0000
Subject: [PATCH 53/71] fix: restrict Vyper mutations to the named functions,
 not to other nodes with the same name

---
 mutagenyx_lib/src/vyper/language_interface.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/language_interface.rs b/mutagenyx_lib/src/vyper/language_interface.rs
index 59f692d..d06d71f 100644
--- a/mutagenyx_lib/src/vyper/language_interface.rs
+++ b/mutagenyx_lib/src/vyper/language_interface.rs
@@ -163,8 +163,10 @@ impl JSONLanguageDelegate for VyperLanguageDelegate {
     }
 
     fn get_namer(&self) -> Box<dyn Namer<Value>> {
-        Box::new(JSONNamer::new(|v| {
-            v.get_str_for_key("name").map(String::from)
+        // Permissions select functions by name, so other nodes have no name of interest.
+        Box::new(JSONNamer::new(|v| match v.get_str_for_key("ast_type") {
+            Some("FunctionDef") => v.get_str_for_key("name").map(String::from),
+            _ => None,
         }))
     }
 }
-- 
2.43.0


From 0330300a6f65864e6b93636fdbcc400f74c7a3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:46 +0000
Subject: [PATCH 54/71] fix: pretty-print all files to standard output, not
 only the first

---
 mutagenyx/src/pretty_printing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutagenyx/src/pretty_printing.rs b/mutagenyx/src/pretty_printing.rs
index 7de8a2e..d75ce45 100644
--- a/mutagenyx/src/pretty_printing.rs
+++ b/mutagenyx/src/pretty_printing.rs
@@ -45,7 +45,7 @@ pub fn pretty_print_files(args: PrettyPrintCLArgs) {
         if args.stdout {
             let mut stdout = std::io::stdout();
             match pretty_print_file_to_stream(&file_name, &mut stdout, &mut preferences) {
-                Ok(_) => return,
+                Ok(_) => (),
                 Err(e) => println!("Unable to pretty-print {}: {}", file_name, e),
             }
         } else {
-- 
2.43.0


From e812bdb5f9b634a5795639772e2787b0f1105ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:46 +0000
Subject: [PATCH 55/71] fix: pass the allowed paths to the Solidity compiler as
 one list

---
 .../src/solidity/language_interface.rs        | 22 ++++++++-----------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/language_interface.rs b/mutagenyx_lib/src/solidity/language_interface.rs
index c3d60ae..8063f04 100644
--- a/mutagenyx_lib/src/solidity/language_interface.rs
+++ b/mutagenyx_lib/src/solidity/language_interface.rs
@@ -190,20 +190,16 @@ fn get_solidity_compiler_flags_from_preferences(prefs: &Preferences) -> Vec<Stri
                 }
             }
             if let Some(allow_paths_array) = compiler_prefs.get_array_for_key(ALLOW_PATHS_KEY) {
-                if !allow_paths_array.is_empty() {
+                let allow_paths: Vec<String> = allow_paths_array
+                    .iter()
+                    .filter_map(|value| match value {
+                        PreferenceValue::String(s) => Some(s.clone()),
+                        _ => None,
+                    })
+                    .collect();
+                if !allow_paths.is_empty() {
                     args.push(String::from("--allow-paths"));
-                    let mut i: usize = 0;
-                    while i < allow_paths_array.len() {
-                        let value = &allow_paths_array[i];
-                        if let PreferenceValue::String(s) = value {
-                            let mut path_value = s.clone();
-                            if i < (allow_paths_array.len() - 1) {
-                                path_value += ",";
-                            }
-                            args.push(path_value);
-                        }
-                        i += 1;
-                    }
+                    args.push(allow_paths.join(","));
                 }
             }
             if let Some(remappings_array) = compiler_prefs.get_array_for_key(REMAPPINGS_KEY) {
-- 
2.43.0


From fbd1b4feb1af29eaf0ed8008ab77cd8bd25944b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:47 +0000
Subject: [PATCH 56/71] fix: keep the seed of a configuration file to the files
 it lists

---
 mutagenyx/src/mutation_generator.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mutagenyx/src/mutation_generator.rs b/mutagenyx/src/mutation_generator.rs
index cf68305..e919e25 100644
--- a/mutagenyx/src/mutation_generator.rs
+++ b/mutagenyx/src/mutation_generator.rs
@@ -113,7 +113,7 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
 
     // Select a random number generator seed based on args.rng_seed. If args.rng_seed is less
     // than 0, then use a seed based off of time (we don't need cryptographic randomness).
-    let mut seed: u64 = if args.rng_seed < 0 {
+    let seed: u64 = if args.rng_seed < 0 {
         let start = SystemTime::now();
         let since_the_epoch = start.duration_since(UNIX_EPOCH);
         match since_the_epoch {
@@ -137,6 +137,7 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
         let mut actual_output_directory = PathBuf::from_str(&args.output_directory).unwrap();
         let mut actual_use_stdout = args.stdout;
         let mut actual_print_original = args.print_original;
+        let mut actual_seed = seed;
 
         // Try to recognize the language of the source file.  The file might be a source code file,
         // an AST file, or a configuration file.
@@ -164,7 +165,7 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
             // Here we update the random number generator from the configuration details seed if the
             // details have a new seed.
             if let Some(s) = configuration_details.seed {
-                seed = s;
+                actual_seed = s;
             };
 
             // Check to see if the configuration file requested a different set of mutation algorithms.
@@ -199,8 +200,8 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
                 let generator_params = GeneratorParameters {
                     file_name: file_to_mutate_name,
                     number_of_mutants: actual_number_of_mutants,
-                    rng_seed: seed,
-                    rng: Pcg64::seed_from_u64(seed),
+                    rng_seed: actual_seed,
+                    rng: Pcg64::seed_from_u64(actual_seed),
                     output_directory: actual_output_directory.clone(),
                     use_stdout: actual_use_stdout,
                     mutations: actual_mutations.clone(),
-- 
2.43.0


From c622cde0e25469240ba26879cf4aea1501e9fab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:47 +0000
Subject: [PATCH 57/71] fix: accept the whole range of seeds from configuration
 files

---
 mutagenyx_lib/src/config_file.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mutagenyx_lib/src/config_file.rs b/mutagenyx_lib/src/config_file.rs
index 072d8b3..c0167e6 100644
--- a/mutagenyx_lib/src/config_file.rs
+++ b/mutagenyx_lib/src/config_file.rs
@@ -168,8 +168,8 @@ impl ConfigurationFileDetails {
                 details.number_of_mutants = number_of_mutants;
             }
 
-            if let Some(seed) = json_value.get_int_for_key(SEED_KEY) {
-                details.seed = Some(seed as u64);
+            if let Some(seed) = json_value.get(SEED_KEY) {
+                details.seed = seed.as_u64().or_else(|| seed.as_i64().map(|s| s as u64));
             }
 
             if let Some(mutations_array) = json_value.get_array_for_key(MUTATIONS_KEY) {
-- 
2.43.0


From 23b3454db176f9d0d6119e22d48570f7e2f57c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:48 +0000
Subject: [PATCH 58/71] fix: use the command line value of settings missing in
 a configuration file

---
 mutagenyx/src/main.rs               |  6 ++---
 mutagenyx/src/mutation_generator.rs | 21 +++++++++++------
 mutagenyx_lib/src/config_file.rs    | 36 +++++++++++++++++------------
 3 files changed, 38 insertions(+), 25 deletions(-)

diff --git a/mutagenyx/src/main.rs b/mutagenyx/src/main.rs
index f221b85..7332d8d 100644
--- a/mutagenyx/src/main.rs
+++ b/mutagenyx/src/main.rs
@@ -64,9 +64,9 @@ pub struct MutateCLArgs {
     #[arg(long, default_value_t = -1)]
     pub rng_seed: i64,
 
-    /// Number of mutants
-    #[arg(long, default_value_t = 1)]
-    pub num_mutants: usize,
+    /// Number of mutants [default: 1, or 5 for files from a configuration file]
+    #[arg(long)]
+    pub num_mutants: Option<usize>,
 
     /// Mutation algorithms to enable
     #[arg(long)]
diff --git a/mutagenyx/src/mutation_generator.rs b/mutagenyx/src/mutation_generator.rs
index e919e25..f7a6e52 100644
--- a/mutagenyx/src/mutation_generator.rs
+++ b/mutagenyx/src/mutation_generator.rs
@@ -132,7 +132,7 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
         let actual_file_name = file_name.clone();
         let mut actual_mutations = mutations.clone();
         let mut actual_functions = args.function.clone();
-        let mut actual_number_of_mutants = args.num_mutants;
+        let mut actual_number_of_mutants = args.num_mutants.unwrap_or(1);
         let mut actual_verify = args.validate_mutants;
         let mut actual_output_directory = PathBuf::from_str(&args.output_directory).unwrap();
         let mut actual_use_stdout = args.stdout;
@@ -160,7 +160,10 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
                 }
             }
 
-            actual_number_of_mutants = configuration_details.number_of_mutants as usize;
+            actual_number_of_mutants = match configuration_details.number_of_mutants {
+                Some(n) => n as usize,
+                None => args.num_mutants.unwrap_or(5),
+            };
 
             // Here we update the random number generator from the configuration details seed if the
             // details have a new seed.
@@ -179,7 +182,9 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
                 actual_functions = configuration_details.functions;
             }
 
-            actual_verify = configuration_details.verify_mutants;
+            if let Some(verify) = configuration_details.verify_mutants {
+                actual_verify = verify;
+            }
 
             if let Some(output_directory) = configuration_details.output_directory {
                 if output_directory.to_str() == Some("stdout") {
@@ -189,7 +194,9 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
                 }
             }
 
-            actual_print_original = configuration_details.print_original;
+            if let Some(print_original) = configuration_details.print_original {
+                actual_print_original = print_original;
+            }
 
             // The configuration files can have multiple files to mutate using the same settings
             // for each file. Go through the filenames list and add a generator parameter object
@@ -326,15 +333,15 @@ fn generate_mutations(params: &mut GeneratorParameters) -> Result<(), MutagenyxE
         let details = ConfigurationFileDetails {
             language: Some(recognize_result.language),
             filenames,
-            number_of_mutants: params.number_of_mutants as i64,
+            number_of_mutants: Some(params.number_of_mutants as i64),
             seed: Some(params.rng_seed),
             mutations: params.mutations.clone(),
             all_mutations: false,
             compiler_details,
             functions: params.functions.clone(),
-            verify_mutants: params.verify_mutant_viability,
+            verify_mutants: Some(params.verify_mutant_viability),
             output_directory: Some(params.output_directory.clone()),
-            print_original: params.print_original,
+            print_original: Some(params.print_original),
         };
 
         // Build the output file name.
diff --git a/mutagenyx_lib/src/config_file.rs b/mutagenyx_lib/src/config_file.rs
index c0167e6..75f741a 100644
--- a/mutagenyx_lib/src/config_file.rs
+++ b/mutagenyx_lib/src/config_file.rs
@@ -57,8 +57,8 @@ pub struct ConfigurationFileDetails {
     /// Path to either a source file or AST file to mutate.
     pub filenames: Vec<PathBuf>,
 
-    /// The number of mutations to generate for the file.
-    pub number_of_mutants: i64,
+    /// The number of mutations to generate for the file, if present.
+    pub number_of_mutants: Option<i64>,
 
     /// The random number generator seed, if present from the configuration file.
     pub seed: Option<u64>,
@@ -75,14 +75,14 @@ pub struct ConfigurationFileDetails {
     /// List of names of functions to mutate.  If the list is empty, all functions can be mutated.
     pub functions: Vec<String>,
 
-    /// True if the tool should compile the mutants for viability.
-    pub verify_mutants: bool,
+    /// True if the tool should compile the mutants for viability, if present.
+    pub verify_mutants: Option<bool>,
 
     /// The location where the tool should put generated output files.
     pub output_directory: Option<PathBuf>,
 
-    /// True if the tool should pretty-print the original source or AST file.
-    pub print_original: bool,
+    /// True if the tool should pretty-print the original source or AST file, if present.
+    pub print_original: Option<bool>,
 }
 
 impl ConfigurationFileDetails {
@@ -113,15 +113,15 @@ impl ConfigurationFileDetails {
             language: None,
             filenames: Vec::new(),
             compiler_details: None,
-            number_of_mutants: 5,
+            number_of_mutants: None,
             // TODO: casting to u64 truncates data here, find something better.
             seed: None,
             mutations: Vec::new(),
             all_mutations: false,
             functions: Vec::new(),
-            verify_mutants: false,
+            verify_mutants: None,
             output_directory: None,
-            print_original: false,
+            print_original: None,
         };
 
         if let Ok(json_value) = load_json_from_file_with_name(config_file) {
@@ -165,7 +165,7 @@ impl ConfigurationFileDetails {
             }
 
             if let Some(number_of_mutants) = json_value.get_int_for_key(NUMBER_OF_MUTANTS_KEY) {
-                details.number_of_mutants = number_of_mutants;
+                details.number_of_mutants = Some(number_of_mutants);
             }
 
             if let Some(seed) = json_value.get(SEED_KEY) {
@@ -202,7 +202,7 @@ impl ConfigurationFileDetails {
             }
 
             if let Some(check) = json_value.get_bool_for_key(VALIDATE_MUTANTS_KEY) {
-                details.verify_mutants = check;
+                details.verify_mutants = Some(check);
             }
 
             if let Some(output_directory) = json_value.get_str_for_key(OUTPUT_DIR_KEY) {
@@ -210,7 +210,7 @@ impl ConfigurationFileDetails {
             }
 
             if let Some(print_original) = json_value.get_bool_for_key(PRINT_ORIGINAL_KEY) {
-                details.print_original = print_original;
+                details.print_original = Some(print_original);
             }
         } else {
             return Err(MutagenyxError::ConfigFileNotSupported(String::from(
@@ -239,7 +239,9 @@ impl ConfigurationFileDetails {
 
         json_value.set_node_for_key(FILENAMES_KEY, json![json_filenames_array]);
 
-        json_value.set_node_for_key(NUMBER_OF_MUTANTS_KEY, json![self.number_of_mutants]);
+        if let Some(number_of_mutants) = self.number_of_mutants {
+            json_value.set_node_for_key(NUMBER_OF_MUTANTS_KEY, json![number_of_mutants]);
+        }
 
         if let Some(seed) = self.seed {
             json_value.set_node_for_key(SEED_KEY, json![seed]);
@@ -267,13 +269,17 @@ impl ConfigurationFileDetails {
             json_value.set_node_for_key(FUNCTIONS_KEY, json![self.functions]);
         }
 
-        json_value.set_node_for_key(VALIDATE_MUTANTS_KEY, json![self.verify_mutants]);
+        if let Some(verify_mutants) = self.verify_mutants {
+            json_value.set_node_for_key(VALIDATE_MUTANTS_KEY, json![verify_mutants]);
+        }
 
         if let Some(output_directory) = &self.output_directory {
             json_value.set_node_for_key(OUTPUT_DIR_KEY, json![output_directory.to_str()]);
         }
 
-        json_value.set_node_for_key(PRINT_ORIGINAL_KEY, json![self.print_original]);
+        if let Some(print_original) = self.print_original {
+            json_value.set_node_for_key(PRINT_ORIGINAL_KEY, json![print_original]);
+        }
 
         Ok(json_value)
     }
-- 
2.43.0


From c54f57f0a2b0f54cabc9ebe0bdf3cc364bf4a02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:48 +0000
Subject: [PATCH 59/71] fix: save the use of standard output in configuration
 files

---
 mutagenyx/src/mutation_generator.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mutagenyx/src/mutation_generator.rs b/mutagenyx/src/mutation_generator.rs
index f7a6e52..f2693a6 100644
--- a/mutagenyx/src/mutation_generator.rs
+++ b/mutagenyx/src/mutation_generator.rs
@@ -340,7 +340,11 @@ fn generate_mutations(params: &mut GeneratorParameters) -> Result<(), MutagenyxE
             compiler_details,
             functions: params.functions.clone(),
             verify_mutants: Some(params.verify_mutant_viability),
-            output_directory: Some(params.output_directory.clone()),
+            output_directory: Some(if params.use_stdout {
+                PathBuf::from("stdout")
+            } else {
+                params.output_directory.clone()
+            }),
             print_original: Some(params.print_original),
         };
 
-- 
2.43.0


From 0a0d3984d05b3a1f75c88ab13b88d422c286fe40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:32 +0000
Subject: [PATCH 60/71] fix: compile and convert in a directory of our own,
 without touching files in the temporary directory

---
 .../src/json_ast_language_interface.rs        | 29 +++++++--------
 .../src/solidity/language_interface.rs        | 29 ++++++++++-----
 mutagenyx_lib/src/utility.rs                  | 37 +++++++++++++++++++
 mutagenyx_lib/src/vyper/language_interface.rs | 31 +++++++++-------
 4 files changed, 87 insertions(+), 39 deletions(-)

diff --git a/mutagenyx_lib/src/json_ast_language_interface.rs b/mutagenyx_lib/src/json_ast_language_interface.rs
index 59b0ba4..62d835b 100644
--- a/mutagenyx_lib/src/json_ast_language_interface.rs
+++ b/mutagenyx_lib/src/json_ast_language_interface.rs
@@ -17,10 +17,10 @@ use crate::preferences::Preferences;
 use crate::pretty_printer::PrettyPrinter;
 use crate::recognizer::FileType;
 use crate::super_ast::SuperAST;
+use crate::utility::ScratchDirectory;
 use rand_pcg::Pcg64;
 use serde_json::Value;
 use std::collections::HashMap;
-use std::env;
 use std::io::Write;
 use std::path::PathBuf;
 
@@ -252,31 +252,30 @@ impl MutableLanguage for JSONLanguageInterface {
         ast: &SuperAST,
         prefs: &Preferences,
     ) -> bool {
-        // We will pretty print the AST to a file in the temp directory.
-        let mut source_file = env::temp_dir();
+        // We will pretty print the AST to a file in a temporary directory.
+        let scratch_directory = match ScratchDirectory::new() {
+            Ok(d) => d,
+            Err(_) => return false,
+        };
 
         let original_file = PathBuf::from(original_file_name);
-        let base_file_name = original_file.file_name().unwrap();
-        source_file.push(String::from(base_file_name.to_str().unwrap()));
+        let mut base_file_name = String::from(original_file.file_name().unwrap().to_str().unwrap());
+        let extension = String::from(".") + self.delegate.get_file_extension();
+        if !base_file_name.ends_with(&extension) {
+            base_file_name += &extension;
+        }
+        let source_file = scratch_directory.file(&base_file_name);
 
         let mut pretty_printer = PrettyPrinter::new(4, 150);
 
         if self
-            .pretty_print_ast_to_file(ast, source_file.to_str().unwrap(), &mut pretty_printer)
+            .pretty_print_ast_to_file(ast, &source_file, &mut pretty_printer)
             .is_err()
         {
             return false;
         }
 
-        let compile_result = self
-            .delegate
-            .mutant_compiles(source_file.to_str().unwrap(), prefs);
-
-        if std::fs::remove_file(source_file.clone()).is_err() {
-            log::debug!("Failed to remove temporary source file: {:?}", source_file);
-        }
-
-        compile_result
+        self.delegate.mutant_compiles(&source_file, prefs)
     }
 
     fn calculate_node_paths(
diff --git a/mutagenyx_lib/src/solidity/language_interface.rs b/mutagenyx_lib/src/solidity/language_interface.rs
index 8063f04..a0a97d2 100644
--- a/mutagenyx_lib/src/solidity/language_interface.rs
+++ b/mutagenyx_lib/src/solidity/language_interface.rs
@@ -28,11 +28,10 @@ use crate::solidity::mutators::SolidityMutatorFactory;
 use crate::solidity::node_finder::SolidityNodeFinderFactory;
 use crate::solidity::pretty_printer::SolidityNodePrinterFactory;
 use crate::super_ast::SuperAST;
-use crate::utility::shell_execute;
+use crate::utility::{shell_execute, ScratchDirectory};
 use crate::visitor::Visitor;
 use crate::Language;
 use serde_json::Value;
-use std::env;
 use std::io::Write;
 use std::path::PathBuf;
 use std::str::FromStr;
@@ -99,7 +98,8 @@ impl JSONLanguageDelegate for SolidityLanguageSubDelegate {
         file_name: &str,
         prefs: &Preferences,
     ) -> Result<SuperAST, MutagenyxError> {
-        if let Ok(s) = file_is_source_file(file_name, prefs) {
+        let scratch_directory = ScratchDirectory::new()?;
+        if let Ok(s) = file_is_source_file(file_name, &scratch_directory, prefs) {
             let value = load_json_from_file_with_name(&s)?;
             return <SolidityLanguageSubDelegate as JSONLanguageDelegate>::get_value_as_super_ast(
                 self, value,
@@ -112,7 +112,10 @@ impl JSONLanguageDelegate for SolidityLanguageSubDelegate {
     }
 
     fn file_is_language_source_file(&self, file_name: &str, prefs: &Preferences) -> bool {
-        file_is_source_file(file_name, prefs).is_ok()
+        match ScratchDirectory::new() {
+            Ok(d) => file_is_source_file(file_name, &d, prefs).is_ok(),
+            Err(_) => false,
+        }
     }
 
     fn implements(&self) -> Language {
@@ -245,13 +248,15 @@ fn get_solidity_compiler_from_preferences(prefs: &Preferences) -> String {
 ///
 /// * `file_name` - The path to the source file to compile.
 /// * `prefs` - The [`Preferences`] object that may contain a value for `solidity_compiler`.
-fn file_is_source_file(file_name: &str, prefs: &Preferences) -> Result<String, MutagenyxError> {
+fn file_is_source_file(
+    file_name: &str,
+    scratch_directory: &ScratchDirectory,
+    prefs: &Preferences,
+) -> Result<String, MutagenyxError> {
     let file_path = PathBuf::from_str(file_name).unwrap();
     let base_name = file_path.file_name().unwrap().to_str().unwrap();
-    let tmp_dir = env::temp_dir();
-    let separator = String::from(std::path::MAIN_SEPARATOR);
-    let out_path =
-        String::from(tmp_dir.to_str().unwrap()) + separator.as_str() + base_name + "_json.ast";
+    let tmp_dir = &scratch_directory.path;
+    let out_path = scratch_directory.file(&(String::from(base_name) + "_json.ast"));
     let args = vec![
         "--ast-compact-json",
         "--overwrite",
@@ -303,7 +308,11 @@ fn file_is_source_file(file_name: &str, prefs: &Preferences) -> Result<String, M
 /// * `file_name` - The name of the file in the file system to compile.
 /// * `prefs` - The [`Preferences`] object containing compiler settings.
 fn file_compiles(file_name: &str, prefs: &Preferences) -> bool {
-    let tmp_dir = env::temp_dir();
+    let scratch_directory = match ScratchDirectory::new() {
+        Ok(d) => d,
+        Err(_) => return false,
+    };
+    let tmp_dir = &scratch_directory.path;
     let args = vec!["--overwrite", "-o", tmp_dir.to_str().unwrap(), file_name];
 
     let solidity_compiler = get_solidity_compiler_from_preferences(prefs);
diff --git a/mutagenyx_lib/src/utility.rs b/mutagenyx_lib/src/utility.rs
index a882e6a..abea064 100644
--- a/mutagenyx_lib/src/utility.rs
+++ b/mutagenyx_lib/src/utility.rs
@@ -2,8 +2,45 @@
 //! other parts of the library.
 
 use crate::error::MutagenyxError;
+use std::env;
+use std::io::ErrorKind;
+use std::path::PathBuf;
 use std::process::{Command, Output};
 
+/// A new directory below the system's temporary directory.  The directory and its contents
+/// disappear together with the object.
+pub struct ScratchDirectory {
+    pub path: PathBuf,
+}
+
+impl ScratchDirectory {
+    /// Create a directory that nothing else uses.
+    pub fn new() -> Result<ScratchDirectory, MutagenyxError> {
+        let mut number: usize = 0;
+        loop {
+            let path = env::temp_dir().join(format!("mutagenyx_{}_{}", std::process::id(), number));
+            match std::fs::create_dir(&path) {
+                Ok(_) => return Ok(ScratchDirectory { path }),
+                Err(e) if e.kind() == ErrorKind::AlreadyExists => number += 1,
+                Err(e) => return Err(MutagenyxError::from(e)),
+            }
+        }
+    }
+
+    /// Return the path of the file with `name` in the directory.
+    pub fn file(&self, name: &str) -> String {
+        String::from(self.path.join(name).to_str().unwrap())
+    }
+}
+
+impl Drop for ScratchDirectory {
+    fn drop(&mut self) {
+        if std::fs::remove_dir_all(&self.path).is_err() {
+            log::debug!("Failed to remove temporary directory: {:?}", self.path);
+        }
+    }
+}
+
 /// Execute a command using the shell facility on the computer.
 ///
 /// # Arguments
diff --git a/mutagenyx_lib/src/vyper/language_interface.rs b/mutagenyx_lib/src/vyper/language_interface.rs
index d06d71f..9634520 100644
--- a/mutagenyx_lib/src/vyper/language_interface.rs
+++ b/mutagenyx_lib/src/vyper/language_interface.rs
@@ -21,7 +21,7 @@ use crate::preferences::Preferences;
 use crate::pretty_print_visitor::PrettyPrintVisitor;
 use crate::pretty_printer::PrettyPrinter;
 use crate::super_ast::SuperAST;
-use crate::utility::shell_execute;
+use crate::utility::{shell_execute, ScratchDirectory};
 use crate::visitor::Visitor;
 use crate::vyper::ast::VyperAST;
 use crate::vyper::commenter::VyperCommenterFactory;
@@ -30,7 +30,6 @@ use crate::vyper::mutators::VyperMutatorFactory;
 use crate::vyper::node_finder::VyperNodeFinderFactory;
 use crate::vyper::pretty_printer::VyperNodePrinterFactory;
 use serde_json::Value;
-use std::env;
 use std::io::Write;
 use std::path::PathBuf;
 use std::str::FromStr;
@@ -98,14 +97,17 @@ impl JSONLanguageDelegate for VyperLanguageDelegate {
         file_name: &str,
         prefs: &Preferences,
     ) -> Result<SuperAST, MutagenyxError> {
-        if let Ok(s) = file_is_source_file_with_vyper_from_pip(file_name, prefs) {
+        let scratch_directory = ScratchDirectory::new()?;
+
+        if let Ok(s) = file_is_source_file_with_vyper_from_pip(file_name, &scratch_directory, prefs)
+        {
             let value = load_json_from_file_with_name(&s)?;
             return <VyperLanguageDelegate as JSONLanguageDelegate>::get_value_as_super_ast(
                 self, value,
             );
         }
 
-        if let Ok(s) = file_is_source_file_with_docker(file_name, prefs) {
+        if let Ok(s) = file_is_source_file_with_docker(file_name, &scratch_directory, prefs) {
             let value = load_json_from_file_with_name(&s)?;
             return <VyperLanguageDelegate as JSONLanguageDelegate>::get_value_as_super_ast(
                 self, value,
@@ -118,8 +120,13 @@ impl JSONLanguageDelegate for VyperLanguageDelegate {
     }
 
     fn file_is_language_source_file(&self, file_name: &str, prefs: &Preferences) -> bool {
-        file_is_source_file_with_vyper_from_pip(file_name, prefs).is_ok()
-            || file_is_source_file_with_docker(file_name, prefs).is_ok()
+        match ScratchDirectory::new() {
+            Ok(d) => {
+                file_is_source_file_with_vyper_from_pip(file_name, &d, prefs).is_ok()
+                    || file_is_source_file_with_docker(file_name, &d, prefs).is_ok()
+            }
+            Err(_) => false,
+        }
     }
 
     fn implements(&self) -> Language {
@@ -273,6 +280,7 @@ fn get_vyper_compiler_version(compiler: &str) -> Result<Versioning, MutagenyxErr
 /// * `preferences` - The [`Preferences`] object that might contain a value for `vyper_compiler`.
 fn file_is_source_file_with_vyper_from_pip(
     file_name: &str,
+    scratch_directory: &ScratchDirectory,
     preferences: &Preferences,
 ) -> Result<String, MutagenyxError> {
     // This code does the following:
@@ -283,8 +291,7 @@ fn file_is_source_file_with_vyper_from_pip(
 
     let file_path = PathBuf::from_str(file_name).unwrap();
     let base_name = file_path.file_name().unwrap().to_str().unwrap();
-    let tmp_dir = env::temp_dir();
-    let mut full_path_to_tmp_file = PathBuf::from(&tmp_dir);
+    let mut full_path_to_tmp_file = scratch_directory.path.clone();
 
     // The Vyper compiler did not start to support '-o outfile_name' as a command line option until
     // Vyper compiler version 3.0.0.
@@ -356,6 +363,7 @@ fn file_is_source_file_with_vyper_from_pip(
 /// * `file_name` - The path to the source file to compile.
 fn file_is_source_file_with_docker(
     file_name: &str,
+    scratch_directory: &ScratchDirectory,
     preferences: &Preferences,
 ) -> Result<String, MutagenyxError> {
     // The docker command to invoke the Vyper compiler requires the path where the source file
@@ -363,12 +371,7 @@ fn file_is_source_file_with_docker(
     let full_file_path = PathBuf::from_str(file_name).unwrap();
     let base_name = full_file_path.file_name().unwrap().to_str().unwrap();
 
-    let tmp_dir = env::temp_dir();
-
-    let separator = String::from(std::path::MAIN_SEPARATOR);
-
-    let out_path =
-        String::from(tmp_dir.to_str().unwrap()) + separator.as_str() + base_name + ".json";
+    let out_path = scratch_directory.file(&(String::from(base_name) + ".json"));
 
     let mut directory_name = full_file_path.clone();
 
-- 
2.43.0


From e073a2896cd6e4270e5e2b7ae0de9b326e19fdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:32 +0000
Subject: [PATCH 61/71] fix: accept any bytes in the output of compilers and
 any version text

---
 .../src/solidity/language_interface.rs        |  8 +++---
 mutagenyx_lib/src/vyper/language_interface.rs | 25 ++++++++++++-------
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/language_interface.rs b/mutagenyx_lib/src/solidity/language_interface.rs
index a0a97d2..bde2c2a 100644
--- a/mutagenyx_lib/src/solidity/language_interface.rs
+++ b/mutagenyx_lib/src/solidity/language_interface.rs
@@ -283,8 +283,8 @@ fn file_is_source_file(
             if output.status.success() {
                 Ok(out_path)
             } else {
-                let stdout_contents = core::str::from_utf8(output.stdout.as_slice()).unwrap();
-                let stderr_contents = core::str::from_utf8(output.stderr.as_slice()).unwrap();
+                let stdout_contents = String::from_utf8_lossy(&output.stdout);
+                let stderr_contents = String::from_utf8_lossy(&output.stderr);
                 log::debug!(
                     "Compilation failed:\n\tstdout: {}\n\tstderr: {}",
                     stdout_contents,
@@ -354,8 +354,8 @@ fn invoke_compiler(file_name: &str, compiler: &str, args: &Vec<String>) -> bool
     match shell_execute(compiler, compiler_args) {
         Ok(output) => {
             if !output.status.success() {
-                let stdout_contents = core::str::from_utf8(output.stdout.as_slice()).unwrap();
-                let stderr_contents = core::str::from_utf8(output.stderr.as_slice()).unwrap();
+                let stdout_contents = String::from_utf8_lossy(&output.stdout);
+                let stderr_contents = String::from_utf8_lossy(&output.stderr);
                 log::debug!(
                     "Compilation failed:\n\tstdout: {}\n\tstderr: {}",
                     stdout_contents,
diff --git a/mutagenyx_lib/src/vyper/language_interface.rs b/mutagenyx_lib/src/vyper/language_interface.rs
index 9634520..d8ed9fa 100644
--- a/mutagenyx_lib/src/vyper/language_interface.rs
+++ b/mutagenyx_lib/src/vyper/language_interface.rs
@@ -229,10 +229,10 @@ fn get_vyper_compiler_version(compiler: &str) -> Result<Versioning, MutagenyxErr
     {
         Ok(output) => {
             if output.status.success() {
-                let output_version = core::str::from_utf8(output.stdout.as_slice()).unwrap();
+                let output_version = String::from_utf8_lossy(&output.stdout);
 
                 // Clip off the newline character.  The Mess code dislikes the newline.
-                let output_version = &output_version[..output_version.len() - 1];
+                let output_version = output_version.trim_end();
 
                 // We use Mess here because the compiler may output some non-semantic versioned string
                 // like `0.2.11+commit.5db35ef` for a compiler version.  Mess gives us a shot at recovering
@@ -252,12 +252,19 @@ fn get_vyper_compiler_version(compiler: &str) -> Result<Versioning, MutagenyxErr
                         if let Some(value) = v.nth(2) {
                             vstr += &(value).to_string();
                         }
-                        Versioning::new(&vstr).unwrap()
+                        match Versioning::new(&vstr) {
+                            Some(version) => version,
+                            None => {
+                                return Err(MutagenyxError::CompilerNoVersion(String::from(
+                                    compiler,
+                                )))
+                            }
+                        }
                     }
                     None => return Err(MutagenyxError::CompilerNoVersion(String::from(compiler))),
                 }
             } else {
-                let command_error = core::str::from_utf8(output.stderr.as_slice()).unwrap();
+                let command_error = String::from_utf8_lossy(&output.stderr);
                 log::error!("Unable to retrieve compiler version: {}", command_error);
                 return Err(MutagenyxError::CompilerNoVersion(String::from(compiler)));
             }
@@ -338,7 +345,7 @@ fn file_is_source_file_with_vyper_from_pip(
                 if post_process_compiler_output_to_file {
                     // The compiler did not support the -o flag to output the AST to a file.  So,
                     // we get the output from stdout and write that to the output file.
-                    let ast_contents = core::str::from_utf8(output.stdout.as_slice()).unwrap();
+                    let ast_contents = String::from_utf8_lossy(&output.stdout);
                     let mut file = std::fs::File::create(full_path_to_tmp_file.to_str().unwrap())?;
                     write!(file, "{ast_contents}")?;
                 }
@@ -432,8 +439,8 @@ fn file_compiles_with_pip(file_name: &str, prefs: &Preferences) -> bool {
     match shell_execute(&vyper_compiler, full_compiler_args) {
         Ok(output) => {
             if !output.status.success() {
-                let stdout_contents = core::str::from_utf8(output.stdout.as_slice()).unwrap();
-                let stderr_contents = core::str::from_utf8(output.stderr.as_slice()).unwrap();
+                let stdout_contents = String::from_utf8_lossy(&output.stdout);
+                let stderr_contents = String::from_utf8_lossy(&output.stderr);
                 log::debug!(
                     "Compilation failed:\n\tstdout: {}\n\tstderr: {}",
                     stdout_contents,
@@ -479,8 +486,8 @@ fn file_compiles_with_docker(file_name: &str, prefs: &Preferences) -> bool {
     match shell_execute("docker", args) {
         Ok(output) => {
             if !output.status.success() {
-                let stdout_contents = core::str::from_utf8(output.stdout.as_slice()).unwrap();
-                let stderr_contents = core::str::from_utf8(output.stderr.as_slice()).unwrap();
+                let stdout_contents = String::from_utf8_lossy(&output.stdout);
+                let stderr_contents = String::from_utf8_lossy(&output.stderr);
                 log::debug!(
                     "Compilation failed:\n\tstdout: {}\n\tstderr: {}",
                     stdout_contents,
-- 
2.43.0


From b1ff557a77a21fa567f02e61c1ad04ef29200a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:27 +0000
Subject: [PATCH 62/71] fix: never overwrite an input file or another result of
 the same run

---
 mutagenyx/src/main.rs               |  1 +
 mutagenyx/src/mutation_generator.rs | 90 ++++++++++++++++++++---------
 mutagenyx/src/output_files.rs       | 63 ++++++++++++++++++++
 mutagenyx/src/pretty_printing.rs    | 18 +++++-
 mutagenyx_lib/src/error.rs          |  3 +
 5 files changed, 148 insertions(+), 27 deletions(-)
 create mode 100644 mutagenyx/src/output_files.rs

diff --git a/mutagenyx/src/main.rs b/mutagenyx/src/main.rs
index 7332d8d..976df45 100644
--- a/mutagenyx/src/main.rs
+++ b/mutagenyx/src/main.rs
@@ -5,6 +5,7 @@ mod compiler_settings;
 mod generator_parameters;
 mod mutation_generator;
 mod mutations_info;
+mod output_files;
 mod pretty_printing;
 
 use crate::mutation_generator::generate_mutants;
diff --git a/mutagenyx/src/mutation_generator.rs b/mutagenyx/src/mutation_generator.rs
index f2693a6..4d742ed 100644
--- a/mutagenyx/src/mutation_generator.rs
+++ b/mutagenyx/src/mutation_generator.rs
@@ -3,6 +3,7 @@
 
 use crate::compiler_settings::*;
 use crate::generator_parameters::GeneratorParameters;
+use crate::output_files::OutputFiles;
 use crate::pretty_printing::{pretty_print_ast, pretty_print_ast_to_stream};
 use crate::MutateCLArgs;
 use mutagenyx_lib::compiler_details::*;
@@ -127,7 +128,10 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
 
     let pcg = Pcg64::seed_from_u64(seed);
 
+    let mut output_files = OutputFiles::new();
+
     for file_name in args.file {
+        output_files.add_input(&file_name);
         let mut actual_preferences = preferences.clone();
         let actual_file_name = file_name.clone();
         let mut actual_mutations = mutations.clone();
@@ -242,8 +246,11 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
     }
 
     // Now, for each set of parameters, invoke the mutator.
+    for params in &generator_parameters {
+        output_files.add_input(&params.file_name);
+    }
     for params in &mut generator_parameters {
-        generate_mutations(params)?;
+        generate_mutations(params, &mut output_files)?;
     }
 
     Ok(())
@@ -257,7 +264,11 @@ static ATTEMPTS_TO_GENERATE_A_MUTANT: usize = 50;
 /// # Arguments
 ///
 /// * `params` - The parameters that control the mutation generation algorithm.
-fn generate_mutations(params: &mut GeneratorParameters) -> Result<(), MutagenyxError> {
+/// * `output_files` - The files that the run uses.
+fn generate_mutations(
+    params: &mut GeneratorParameters,
+    output_files: &mut OutputFiles,
+) -> Result<(), MutagenyxError> {
     // Try to recognize the language of the source file.  The file might be a source code file
     // or perhaps an AST file.
     let recognizer = Recognizer::new(&mut params.preferences);
@@ -300,12 +311,23 @@ fn generate_mutations(params: &mut GeneratorParameters) -> Result<(), MutagenyxE
             pretty_print_ast_to_stream(&ast, &mut stdout)?;
         } else {
             let original_file = PathBuf::from_str(&params.file_name).unwrap();
-            pretty_print_ast(&ast, &params.file_name, &params.output_directory)?;
-            println!(
-                "Pretty-printing original file {:?} to {}",
-                original_file.file_name().unwrap(),
-                &params.output_directory.to_str().unwrap()
-            );
+            match pretty_print_ast(
+                &ast,
+                &params.file_name,
+                &params.output_directory,
+                Some(&params.file_name),
+                output_files,
+            ) {
+                Ok(_) => println!(
+                    "Pretty-printing original file {:?} to {}",
+                    original_file.file_name().unwrap(),
+                    &params.output_directory.to_str().unwrap()
+                ),
+                Err(e @ MutagenyxError::OutputFileInUse(_)) => {
+                    println!("Unable to pretty-print original file: {}", e)
+                }
+                Err(e) => return Err(e),
+            }
         }
     }
 
@@ -365,11 +387,16 @@ fn generate_mutations(params: &mut GeneratorParameters) -> Result<(), MutagenyxE
             let mut stdout = std::io::stdout();
             details.write_to_stream_as_json(&mut stdout)?;
         } else {
-            println!(
-                "Writing configuration file {}",
-                out_file_path.to_str().unwrap()
-            );
-            details.write_to_file_as_json(out_file_path.to_str().unwrap())?;
+            match output_files.claim(&out_file_path, None) {
+                Ok(_) => {
+                    println!(
+                        "Writing configuration file {}",
+                        out_file_path.to_str().unwrap()
+                    );
+                    details.write_to_file_as_json(out_file_path.to_str().unwrap())?;
+                }
+                Err(e) => println!("Unable to write configuration file: {}", e),
+            }
         }
     }
 
@@ -461,7 +488,7 @@ fn generate_mutations(params: &mut GeneratorParameters) -> Result<(), MutagenyxE
         requested_mutants_remaining -= 1;
     }
 
-    let mut files_written: usize = 0;
+    let mut next_file_number: usize = 0;
     let mut attempts: usize = 0;
     let mut observed_mutator_results: Vec<MutatorResult> = Vec::new();
 
@@ -515,16 +542,29 @@ fn generate_mutations(params: &mut GeneratorParameters) -> Result<(), MutagenyxE
                 // Calculate the name of the output file.
                 let input_file_path = PathBuf::from(&params.file_name);
                 let base_file_name = input_file_path.file_name().unwrap();
-                let outfile_name = params.output_directory.join(
-                    String::from(base_file_name.to_str().unwrap())
-                        + "_"
-                        + &files_written.to_string(),
-                );
-
-                let outfile = String::from(outfile_name.to_str().unwrap());
-
-                let final_file =
-                    pretty_print_ast(&mutated_ast, &outfile, &params.output_directory)?;
+                let final_file = loop {
+                    let outfile_name = params.output_directory.join(
+                        String::from(base_file_name.to_str().unwrap())
+                            + "_"
+                            + &next_file_number.to_string(),
+                    );
+
+                    let outfile = String::from(outfile_name.to_str().unwrap());
+
+                    next_file_number += 1;
+
+                    // Skip the numbers that another input file with the same name has used.
+                    match pretty_print_ast(
+                        &mutated_ast,
+                        &outfile,
+                        &params.output_directory,
+                        None,
+                        output_files,
+                    ) {
+                        Err(MutagenyxError::OutputFileInUse(_)) => continue,
+                        result => break result?,
+                    }
+                };
 
                 println!(
                     "{} used to create mutant written to {}",
@@ -539,8 +579,6 @@ fn generate_mutations(params: &mut GeneratorParameters) -> Result<(), MutagenyxE
             // Add the mutator result to the list of results that we have observed.
             observed_mutator_results.push(mutate_ast_result.mutator_result);
 
-            files_written += 1;
-
             // Reset attempts for the next mutation type.
             attempts = 0;
             continue 'mutation_loops;
diff --git a/mutagenyx/src/output_files.rs b/mutagenyx/src/output_files.rs
new file mode 100644
index 0000000..1ea8a77
--- /dev/null
+++ b/mutagenyx/src/output_files.rs
@@ -0,0 +1,63 @@
+//! The `output_files` module keeps a run from overwriting its inputs and its own results.
+
+use mutagenyx_lib::error::MutagenyxError;
+use std::collections::{HashMap, HashSet};
+use std::path::{Path, PathBuf};
+
+/// The input files of a run and the files that the run has written so far.
+pub struct OutputFiles {
+    inputs: HashSet<PathBuf>,
+    written: HashMap<PathBuf, Option<String>>,
+}
+
+impl OutputFiles {
+    pub fn new() -> OutputFiles {
+        OutputFiles {
+            inputs: HashSet::new(),
+            written: HashMap::new(),
+        }
+    }
+
+    /// Protect the input file with `file_name`.
+    pub fn add_input(&mut self, file_name: &str) {
+        self.inputs.insert(real_path(Path::new(file_name)));
+    }
+
+    /// Reserve `path` for writing.
+    ///
+    /// # Arguments
+    ///
+    /// * `path` - The file to write.
+    /// * `content` - Identifies the content, equal content may replace itself.
+    pub fn claim(&mut self, path: &Path, content: Option<&str>) -> Result<(), MutagenyxError> {
+        let real = real_path(path);
+        let content = content.map(String::from);
+        let same_content = match self.written.get(&real) {
+            Some(c) => c.is_some() && *c == content,
+            None => true,
+        };
+        if self.inputs.contains(&real) || !same_content {
+            return Err(MutagenyxError::OutputFileInUse(
+                path.to_string_lossy().to_string(),
+            ));
+        }
+        self.written.insert(real, content);
+        Ok(())
+    }
+}
+
+/// Return the path without links or relative parts, for files that need not exist yet.
+fn real_path(path: &Path) -> PathBuf {
+    if let Ok(real) = path.canonicalize() {
+        return real;
+    }
+    let parent = match path.parent() {
+        Some(p) if p.as_os_str().is_empty() => Path::new("."),
+        Some(p) => p,
+        None => return path.to_path_buf(),
+    };
+    match (parent.canonicalize(), path.file_name()) {
+        (Ok(real), Some(name)) => real.join(name),
+        _ => path.to_path_buf(),
+    }
+}
diff --git a/mutagenyx/src/pretty_printing.rs b/mutagenyx/src/pretty_printing.rs
index d75ce45..488fb15 100644
--- a/mutagenyx/src/pretty_printing.rs
+++ b/mutagenyx/src/pretty_printing.rs
@@ -3,6 +3,7 @@
 //! that you can easily compare with the generated mutants using a diff tool.
 
 use crate::compiler_settings::*;
+use crate::output_files::OutputFiles;
 use crate::PrettyPrintCLArgs;
 use mutagenyx_lib::error::MutagenyxError;
 use mutagenyx_lib::language_interface::*;
@@ -41,6 +42,11 @@ pub fn pretty_print_files(args: PrettyPrintCLArgs) {
 
     let mut preferences = compiler_paths.to_preferences();
 
+    let mut output_files = OutputFiles::new();
+    for file_name in &args.file {
+        output_files.add_input(file_name);
+    }
+
     for file_name in args.file {
         if args.stdout {
             let mut stdout = std::io::stdout();
@@ -51,7 +57,12 @@ pub fn pretty_print_files(args: PrettyPrintCLArgs) {
         } else {
             let original_file = PathBuf::from_str(&file_name).unwrap();
             let original_file_str = original_file.file_name().unwrap();
-            match pretty_print_file(&file_name, &args.output_directory, &mut preferences) {
+            match pretty_print_file(
+                &file_name,
+                &args.output_directory,
+                &mut preferences,
+                &mut output_files,
+            ) {
                 Ok(_buf) => log::info!(
                     "Pretty-printing original file {:?} to {}",
                     original_file_str,
@@ -74,6 +85,7 @@ pub fn pretty_print_file(
     file_name: &String,
     output_directory: &str,
     preferences: &mut Preferences,
+    output_files: &mut OutputFiles,
 ) -> Result<PathBuf, MutagenyxError> {
     // Convert the output_directory to a PathBuf
     let out_dir = PathBuf::from_str(output_directory).unwrap();
@@ -107,6 +119,7 @@ pub fn pretty_print_file(
 
     // Try to create the output directory:
     std::fs::create_dir_all(outfile_name.parent().unwrap())?;
+    output_files.claim(&outfile_name, Some(file_name))?;
 
     // Create a pretty printer for printing this AST.
     let mut pretty_printer = PrettyPrinter::new(4, 150);
@@ -158,6 +171,8 @@ pub fn pretty_print_ast(
     ast: &SuperAST,
     file_name: &str,
     output_dir: &Path,
+    content: Option<&str>,
+    output_files: &mut OutputFiles,
 ) -> Result<PathBuf, MutagenyxError> {
     let language = language_for_ast(ast);
 
@@ -179,6 +194,7 @@ pub fn pretty_print_ast(
 
     // Try to create the output directory:
     std::fs::create_dir_all(outfile_name.parent().unwrap())?;
+    output_files.claim(&outfile_name, content)?;
 
     // Create a pretty printer for printing this AST.
     let mut pretty_printer = PrettyPrinter::new(4, 150);
diff --git a/mutagenyx_lib/src/error.rs b/mutagenyx_lib/src/error.rs
index 54d04ba..c437c64 100644
--- a/mutagenyx_lib/src/error.rs
+++ b/mutagenyx_lib/src/error.rs
@@ -87,6 +87,9 @@ pub enum MutagenyxError {
     ConfigFileUnsupportedLanguage(String, String),
 
     /// An error indicating an attempt to work with system time failed.
+    #[error("Output file {0} is an input file or already in use for another result")]
+    OutputFileInUse(String),
+
     #[error("Request for or operation on system time failed")]
     SystemTime,
 
-- 
2.43.0


From 32bc2150d01e2e20718dd8fcd3519532b38cc7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:28 +0000
Subject: [PATCH 63/71] fix: reject mutants that repeat another mutant or the
 original program

---
 mutagenyx/src/mutation_generator.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/mutagenyx/src/mutation_generator.rs b/mutagenyx/src/mutation_generator.rs
index 4d742ed..dd65053 100644
--- a/mutagenyx/src/mutation_generator.rs
+++ b/mutagenyx/src/mutation_generator.rs
@@ -14,11 +14,12 @@ use mutagenyx_lib::mutation::{get_all_mutation_algorithms, MutationType};
 use mutagenyx_lib::mutator_result::MutatorResult;
 use mutagenyx_lib::permissions::*;
 use mutagenyx_lib::recognizer::{FileType, Recognizer};
+use mutagenyx_lib::SuperAST;
 use rand::seq::SliceRandom;
 use rand::RngCore;
 use rand::SeedableRng;
 use rand_pcg::*;
-use std::collections::{HashMap, VecDeque};
+use std::collections::{HashMap, HashSet, VecDeque};
 use std::time::{SystemTime, UNIX_EPOCH};
 use std::{path::PathBuf, str::FromStr};
 
@@ -259,6 +260,23 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
 /// An upper bound on the number times to try to generate a particular mutant for an input file.
 static ATTEMPTS_TO_GENERATE_A_MUTANT: usize = 50;
 
+/// Return the text of the program without comments and layout.
+///
+/// # Arguments
+///
+/// * `ast` - The AST of the program.
+fn get_program_text(ast: &SuperAST) -> Result<String, MutagenyxError> {
+    let mut text: Vec<u8> = Vec::new();
+    pretty_print_ast_to_stream(ast, &mut text)?;
+    Ok(String::from_utf8_lossy(&text)
+        .lines()
+        .map(|line| line.trim())
+        .filter(|line| !line.starts_with("//") && !line.starts_with('#'))
+        .flat_map(|line| line.split_whitespace())
+        .collect::<Vec<&str>>()
+        .join(" "))
+}
+
 /// Generate mutations according the parameters.
 ///
 /// # Arguments
@@ -491,6 +509,7 @@ fn generate_mutations(
     let mut next_file_number: usize = 0;
     let mut attempts: usize = 0;
     let mut observed_mutator_results: Vec<MutatorResult> = Vec::new();
+    let mut observed_programs: HashSet<String> = HashSet::from([get_program_text(&ast)?]);
 
     'mutation_loops: while !mutation_kinds_todo.is_empty() {
         while attempts < ATTEMPTS_TO_GENERATE_A_MUTANT {
@@ -524,6 +543,13 @@ fn generate_mutations(
 
             let mutated_ast = mutate_ast_result.ast.unwrap();
 
+            // Different mutations can still lead to the same program, or change nothing at all.
+            let program_text = get_program_text(&mutated_ast)?;
+            if observed_programs.contains(&program_text) {
+                attempts += 1;
+                continue;
+            }
+
             if params.verify_mutant_viability
                 && !language_object.mutant_compiles(
                     &params.file_name,
@@ -578,6 +604,7 @@ fn generate_mutations(
 
             // Add the mutator result to the list of results that we have observed.
             observed_mutator_results.push(mutate_ast_result.mutator_result);
+            observed_programs.insert(program_text);
 
             // Reset attempts for the next mutation type.
             attempts = 0;
-- 
2.43.0


From 64fb54efd0b6ef064e47330c5daa804ab5cde74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:28 +0000
Subject: [PATCH 64/71] fix: report input files that do not exist or are
 directories

---
 mutagenyx/src/pretty_printing.rs | 4 +++-
 mutagenyx_lib/src/recognizer.rs  | 5 +++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/mutagenyx/src/pretty_printing.rs b/mutagenyx/src/pretty_printing.rs
index 488fb15..aa6eda9 100644
--- a/mutagenyx/src/pretty_printing.rs
+++ b/mutagenyx/src/pretty_printing.rs
@@ -56,7 +56,9 @@ pub fn pretty_print_files(args: PrettyPrintCLArgs) {
             }
         } else {
             let original_file = PathBuf::from_str(&file_name).unwrap();
-            let original_file_str = original_file.file_name().unwrap();
+            let original_file_str = original_file
+                .file_name()
+                .unwrap_or(original_file.as_os_str());
             match pretty_print_file(
                 &file_name,
                 &args.output_directory,
diff --git a/mutagenyx_lib/src/recognizer.rs b/mutagenyx_lib/src/recognizer.rs
index 97b6258..744b17d 100644
--- a/mutagenyx_lib/src/recognizer.rs
+++ b/mutagenyx_lib/src/recognizer.rs
@@ -131,6 +131,11 @@ impl<'a> Recognizer<'a> {
     ///
     /// * `file_name` - The path to the file in the file system.
     pub fn recognize_file(&self, file_name: &str) -> Result<RecognizeResult, MutagenyxError> {
+        // Without a file there is nothing to recognize.
+        if std::fs::metadata(file_name)?.is_dir() {
+            return Err(MutagenyxError::LanguageNotRecognized);
+        }
+
         // Try to recognize the language of the source file.  The file might be a source code file,
         // an AST file, or a config file.
         let mut recognized_details = self.recognize_config_file(file_name);
-- 
2.43.0


From 3d146fc2cc2154ce1b2926d6437d3e1fb00396c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:49 +0000
Subject: [PATCH 65/71] fix: let the output directory of a configuration file
 override --stdout

---
 mutagenyx/src/mutation_generator.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mutagenyx/src/mutation_generator.rs b/mutagenyx/src/mutation_generator.rs
index dd65053..d8e2b1c 100644
--- a/mutagenyx/src/mutation_generator.rs
+++ b/mutagenyx/src/mutation_generator.rs
@@ -192,9 +192,8 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
             }
 
             if let Some(output_directory) = configuration_details.output_directory {
-                if output_directory.to_str() == Some("stdout") {
-                    actual_use_stdout = true;
-                } else {
+                actual_use_stdout = output_directory.to_str() == Some("stdout");
+                if !actual_use_stdout {
                     actual_output_directory = output_directory.clone();
                 }
             }
-- 
2.43.0


From ec6328b24dea132d49cafc53f550ad714442122e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:45 +0000
Subject: [PATCH 66/71] fix: accept plain version numbers of the Vyper compiler

---
 mutagenyx_lib/src/vyper/language_interface.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/language_interface.rs b/mutagenyx_lib/src/vyper/language_interface.rs
index d8ed9fa..e66ee86 100644
--- a/mutagenyx_lib/src/vyper/language_interface.rs
+++ b/mutagenyx_lib/src/vyper/language_interface.rs
@@ -33,7 +33,7 @@ use serde_json::Value;
 use std::io::Write;
 use std::path::PathBuf;
 use std::str::FromStr;
-use versions::{Mess, Versioning};
+use versions::{Mess, SemVer, Version, Versioning};
 
 /// The type that implements [`JSONLanguageDelegate`]
 pub struct VyperLanguageDelegate {
@@ -237,7 +237,13 @@ fn get_vyper_compiler_version(compiler: &str) -> Result<Versioning, MutagenyxErr
                 // We use Mess here because the compiler may output some non-semantic versioned string
                 // like `0.2.11+commit.5db35ef` for a compiler version.  Mess gives us a shot at recovering
                 // the major/minor/release numbers even when the version string has extra, hard-to-parse
-                // contents.
+                // contents.  Plain version numbers do not need this treatment.
+                let plain_version = SemVer::new(output_version)
+                    .map(Versioning::Ideal)
+                    .or_else(|| Version::new(output_version).map(Versioning::General));
+                if let Some(version) = plain_version {
+                    return Ok(version);
+                }
                 match Mess::new(output_version) {
                     Some(v) => {
                         let mut vstr = String::new();
-- 
2.43.0


From 6b2f3a31bad585024af5a42f5ad042ea1ee3216a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:45 +0000
Subject: [PATCH 67/71] fix: print empty tokens on pages without any width

---
 mutagenyx_lib/src/pretty_printer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/pretty_printer.rs b/mutagenyx_lib/src/pretty_printer.rs
index 05b2a85..d533ae1 100644
--- a/mutagenyx_lib/src/pretty_printer.rs
+++ b/mutagenyx_lib/src/pretty_printer.rs
@@ -215,7 +215,7 @@ impl PrettyPrinter {
                 self.write_basic_string(stream, token)?;
             }
         } else {
-            if token.len() > (self.page_width - self.column) {
+            if token.len() > self.page_width.saturating_sub(self.column) {
                 self.write_newline(stream)?;
                 self.write_indent(stream)?;
             }
-- 
2.43.0


From c1be3724b1a2b08523c5cc5bb3ad1eca7fcb5ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:56 +0000
Subject: [PATCH 68/71] fix: report configuration files whose filenames are not
 a list

---
 mutagenyx_lib/src/config_file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/config_file.rs b/mutagenyx_lib/src/config_file.rs
index 75f741a..60ca634 100644
--- a/mutagenyx_lib/src/config_file.rs
+++ b/mutagenyx_lib/src/config_file.rs
@@ -131,7 +131,7 @@ impl ConfigurationFileDetails {
                 missing_keys.push(String::from(LANGUAGE_KEY));
             }
 
-            if !json_value.contains_key(FILENAMES_KEY) {
+            if json_value.get_array_for_key(FILENAMES_KEY).is_none() {
                 missing_keys.push(String::from(FILENAMES_KEY));
             }
 
-- 
2.43.0


From 2208d23a71910e7c74f72347ede95cfb62c8d23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:20 +0000
Subject: [PATCH 69/71] fix: keep consecutive version numbers in a pragma apart

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index fee77a1..5cb8c28 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -498,6 +498,7 @@ impl NodePrinter<SolidityAST> for PragmaDirectivePrinter {
                             needs_space = false;
                         } else if contains_digits_and_or_dots(previous_token)
                             && contains_digits_and_or_dots(s)
+                            && s.starts_with('.')
                         {
                             needs_space = false;
                         }
-- 
2.43.0


From 06bac100637d8e8bdadd7ce114531e63def59ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:43 +0000
Subject: [PATCH 70/71] fix: treat parts of a Solidity tree that are null as
 absent when printing

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 5cb8c28..4ffb516 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -797,7 +797,7 @@ impl NodePrinter<SolidityAST> for VariableDeclarationPrinter {
             }
         }
 
-        if let Some(value) = node.get("value") {
+        if let Some(value) = node.get("value").filter(|n| !n.is_null()) {
             write_space(printer, stream);
             write_token(printer, stream, "=");
             write_space(printer, stream);
@@ -1056,7 +1056,7 @@ impl NodePrinter<SolidityAST> for VariableDeclarationStatementPrinter {
             }
         }
 
-        if let Some(initial_value) = node.get("initialValue") {
+        if let Some(initial_value) = node.get("initialValue").filter(|n| !n.is_null()) {
             write_space(printer, stream);
             write_token(printer, stream, "=");
             write_space(printer, stream);
@@ -1657,7 +1657,7 @@ impl NodePrinter<SolidityAST> for UsingForDirectivePrinter {
         write_space(printer, stream);
         write_token(printer, stream, "for");
         write_space(printer, stream);
-        if let Some(type_name) = node.get("typeName") {
+        if let Some(type_name) = node.get("typeName").filter(|n| !n.is_null()) {
             traverse_sub_node_and_print(printer, stream, factory, type_name);
         } else {
             write_token(printer, stream, "*");
@@ -1712,7 +1712,7 @@ impl NodePrinter<SolidityAST> for ModifierDefinitionPrinter {
             traverse_sub_node_and_print(printer, stream, factory, override_node);
         }
 
-        if let Some(body) = node.get("body") {
+        if let Some(body) = node.get("body").filter(|n| !n.is_null()) {
             write_space(printer, stream);
             traverse_sub_node_and_print(printer, stream, factory, body);
         } else {
@@ -1969,7 +1969,10 @@ impl NodePrinter<SolidityAST> for ForStatementPrinter {
     ) {
         // Include the '(' in the token so it doesn't line break to the next line.
         write_token(printer, stream, "for(");
-        if let Some(initialization_node) = node.get("initializationExpression") {
+        if let Some(initialization_node) = node
+            .get("initializationExpression")
+            .filter(|n| !n.is_null())
+        {
             traverse_sub_node_and_print(printer, stream, factory, initialization_node);
         } else {
             write_token(printer, stream, ";");
@@ -2103,7 +2106,7 @@ impl NodePrinter<SolidityAST> for YulVariableDeclarationPrinter {
                 print_array_helper(printer, stream, factory, variables_array);
             }
         }
-        if let Some(value_node) = node.get("value") {
+        if let Some(value_node) = node.get("value").filter(|n| !n.is_null()) {
             write_space(printer, stream);
             write_token(printer, stream, ":=");
             write_space(printer, stream);
@@ -2516,7 +2519,7 @@ impl NodePrinter<SolidityAST> for TryStatementPrinter {
                 if i >= 1 {
                     write_token(printer, stream, "catch");
                     write_space(printer, stream);
-                } else if clause.get("parameters").is_some() {
+                } else if clause.get("parameters").map_or(false, |p| !p.is_null()) {
                     write_token(printer, stream, "returns");
                     write_space(printer, stream);
                 }
-- 
2.43.0


From 9f006b7a2fe19377f83ba1c32b42d7c20a39c11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:16 +0000
Subject: [PATCH 71/71] fix: print nothing at all for parts of a Solidity tree
 that are null

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 4ffb516..5e82f6d 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -28,7 +28,7 @@ fn print_documentation_helper(
     factory: &dyn NodePrinterFactory<SolidityAST>,
     node: &SolidityAST,
 ) {
-    if let Some(docs) = node.get("documentation") {
+    if let Some(docs) = node.get("documentation").filter(|n| !n.is_null()) {
         traverse_sub_node_and_print(printer, stream, factory, docs);
         write_newline(printer, stream);
         write_indent(printer, stream);
@@ -763,7 +763,7 @@ impl NodePrinter<SolidityAST> for VariableDeclarationPrinter {
             }
         }
 
-        if let Some(override_node) = node.get("overrides") {
+        if let Some(override_node) = node.get("overrides").filter(|n| !n.is_null()) {
             write_space(printer, stream);
             traverse_sub_node_and_print(printer, stream, factory, override_node);
         }
@@ -831,7 +831,7 @@ impl NodePrinter<SolidityAST> for FunctionDefinitionPrinter {
         factory: &dyn NodePrinterFactory<SolidityAST>,
         node: &SolidityAST,
     ) {
-        if let Some(documentation) = node.get("documentation") {
+        if let Some(documentation) = node.get("documentation").filter(|n| !n.is_null()) {
             traverse_sub_node_and_print(printer, stream, factory, documentation);
             write_newline(printer, stream);
             write_indent(printer, stream);
@@ -892,7 +892,7 @@ impl NodePrinter<SolidityAST> for FunctionDefinitionPrinter {
             }
         }
 
-        if let Some(overrides) = node.get("overrides") {
+        if let Some(overrides) = node.get("overrides").filter(|n| !n.is_null()) {
             write_space(printer, stream);
             traverse_sub_node_and_print(printer, stream, factory, overrides);
         }
@@ -903,7 +903,7 @@ impl NodePrinter<SolidityAST> for FunctionDefinitionPrinter {
 
         print_return_parameters_helper(printer, stream, factory, node);
 
-        if let Some(body) = node.get("body") {
+        if let Some(body) = node.get("body").filter(|n| !n.is_null()) {
             write_space(printer, stream);
             traverse_sub_node_and_print(printer, stream, factory, body);
         }
@@ -1707,7 +1707,7 @@ impl NodePrinter<SolidityAST> for ModifierDefinitionPrinter {
             }
         }
 
-        if let Some(override_node) = node.get("overrides") {
+        if let Some(override_node) = node.get("overrides").filter(|n| !n.is_null()) {
             write_space(printer, stream);
             traverse_sub_node_and_print(printer, stream, factory, override_node);
         }
@@ -1794,7 +1794,7 @@ impl NodePrinter<SolidityAST> for ReturnPrinter {
         node: &SolidityAST,
     ) {
         write_token(printer, stream, "return");
-        if let Some(expression) = node.get("expression") {
+        if let Some(expression) = node.get("expression").filter(|n| !n.is_null()) {
             write_space(printer, stream);
             traverse_sub_node_and_print(printer, stream, factory, expression);
         }
@@ -1977,12 +1977,12 @@ impl NodePrinter<SolidityAST> for ForStatementPrinter {
         } else {
             write_token(printer, stream, ";");
         }
-        if let Some(condition_node) = node.get("condition") {
+        if let Some(condition_node) = node.get("condition").filter(|n| !n.is_null()) {
             write_space(printer, stream);
             traverse_sub_node_and_print(printer, stream, factory, condition_node);
         }
         write_token(printer, stream, ";");
-        if let Some(loop_expression_node) = node.get("loopExpression") {
+        if let Some(loop_expression_node) = node.get("loopExpression").filter(|n| !n.is_null()) {
             let mut printer_settings = factory.get_settings().clone();
             printer_settings.set_value_for_key(
                 WRITE_EXPRESSION_STATEMENT_SEMICOLON,
@@ -2549,7 +2549,7 @@ impl NodePrinter<SolidityAST> for TryCatchClausePrinter {
             }
         }
 
-        if let Some(parameters_node) = node.get("parameters") {
+        if let Some(parameters_node) = node.get("parameters").filter(|n| !n.is_null()) {
             traverse_sub_node_and_print(printer, stream, factory, parameters_node);
             write_space(printer, stream);
         }
-- 
2.43.0

