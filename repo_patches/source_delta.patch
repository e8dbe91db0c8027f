From 8b194ba69e8a22b1679a27387cf75f123055f9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:06 +0000
Subject: [PATCH 01/73] fix: separate the last literal of a pragma from the one
 before it

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 750846e..c6f16d4 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -369,7 +369,7 @@ impl NodePrinter<SolidityAST> for PragmaDirectivePrinter {
                             needs_space = false;
                         }
 
-                        if i < (v.len() - 1) && needs_space {
+                        if needs_space {
                             write_space(printer, stream);
                         }
                         write_token(printer, stream, s);
-- 
2.43.0


From f52efd27d863859097c7c573e174ed68d08622f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:06 +0000
Subject: [PATCH 02/73] fix: print the modifiers of a function without commas
 between them

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 29 ++++----------------
 1 file changed, 5 insertions(+), 24 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index c6f16d4..bb99aa4 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -76,28 +76,6 @@ fn print_operator_helper(printer: &mut PrettyPrinter, stream: &mut dyn Write, no
     }
 }
 
-/// Helper function to write an array preceded by a space.
-///
-/// # Abstract
-///
-/// * `printer` - The [`PrettyPrinter`] that will write formatted output to `stream`.
-/// * `node` - The [`Write`] object that will receive formatted output.
-/// * `factory` - The [`NodePrinterFactory<AST>`] object to generate node printers.
-/// * `node` - The [`SolidityAST`] node.
-fn print_space_and_array_helper(
-    printer: &mut PrettyPrinter,
-    stream: &mut dyn Write,
-    factory: &dyn NodePrinterFactory<SolidityAST>,
-    node: &SolidityAST,
-) {
-    if let Some(array) = node.as_array() {
-        if !array.is_empty() {
-            write_space(printer, stream);
-            print_array_helper(printer, stream, factory, array);
-        }
-    }
-}
-
 /// For Block, UncheckedBlock, and YulBlock nodes, print out the statements array.
 ///
 /// # Arguments
@@ -754,8 +732,11 @@ impl NodePrinter<SolidityAST> for FunctionDefinitionPrinter {
             traverse_sub_node_and_print(printer, stream, factory, overrides);
         }
 
-        if let Some(modifiers) = node.get("modifiers") {
-            print_space_and_array_helper(printer, stream, factory, modifiers);
+        if let Some(modifiers_array) = node.get_array_for_key("modifiers") {
+            for modifier in modifiers_array {
+                write_space(printer, stream);
+                traverse_sub_node_and_print(printer, stream, factory, modifier);
+            }
         }
 
         print_return_parameters_helper(printer, stream, factory, node);
-- 
2.43.0


From a1b55d8e4b5fc3326d3a8d868f36861e6d4e39a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:06 +0000
Subject: [PATCH 03/73] fix: terminate file level constants with a semicolon

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index bb99aa4..d5995a3 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -293,6 +293,9 @@ impl NodePrinter<SolidityAST> for SourceUnitPrinter {
                     if let Some(node) = node_array.get(i) {
                         write_indent(printer, stream);
                         traverse_sub_node_and_print(printer, stream, factory, node);
+                        if let Some("VariableDeclaration") = node.get_str_for_key("nodeType") {
+                            write_token(printer, stream, ";");
+                        }
                         if i < (node_array.len() - 1) {
                             write_newline(printer, stream);
                             write_newline(printer, stream);
-- 
2.43.0


From 3108e3f878e718019e445ac7508bd5463b8de677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:06 +0000
Subject: [PATCH 04/73] fix: separate override from the word before it in
 variables and modifiers

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index d5995a3..de0b3b5 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -606,6 +606,7 @@ impl NodePrinter<SolidityAST> for VariableDeclarationPrinter {
         }
 
         if let Some(override_node) = node.get("overrides") {
+            write_space(printer, stream);
             traverse_sub_node_and_print(printer, stream, factory, override_node);
         }
 
@@ -1488,6 +1489,7 @@ impl NodePrinter<SolidityAST> for ModifierDefinitionPrinter {
         }
 
         if let Some(override_node) = node.get("overrides") {
+            write_space(printer, stream);
             traverse_sub_node_and_print(printer, stream, factory, override_node);
         }
 
-- 
2.43.0


From f733aa94a61965c6812bca0a8bda6adddcde1e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:06 +0000
Subject: [PATCH 05/73] fix: keep both semicolons of a for header with missing
 parts

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index de0b3b5..808d64a 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1746,12 +1746,14 @@ impl NodePrinter<SolidityAST> for ForStatementPrinter {
         write_token(printer, stream, "for(");
         if let Some(initialization_node) = node.get("initializationExpression") {
             traverse_sub_node_and_print(printer, stream, factory, initialization_node);
+        } else {
+            write_token(printer, stream, ";");
         }
         if let Some(condition_node) = node.get("condition") {
             write_space(printer, stream);
             traverse_sub_node_and_print(printer, stream, factory, condition_node);
-            write_token(printer, stream, ";");
         }
+        write_token(printer, stream, ";");
         if let Some(loop_expression_node) = node.get("loopExpression") {
             let mut printer_settings = factory.get_settings().clone();
             printer_settings.set_value_for_key(
-- 
2.43.0


From f93c1ee78db757df8d823aac2149158bb99f6fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:06 +0000
Subject: [PATCH 06/73] fix: write returns in a try statement only when the
 call has return parameters

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 808d64a..75914ae 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1106,16 +1106,9 @@ impl NodePrinter<SolidityAST> for FunctionCallPrinter {
         printer: &mut PrettyPrinter,
         stream: &mut dyn Write,
         _factory: &dyn NodePrinterFactory<SolidityAST>,
-        node: &SolidityAST,
+        _node: &SolidityAST,
     ) {
         write_token(printer, stream, ")");
-
-        if let Some(try_call_bool) = node.get_bool_for_key("tryCall") {
-            if try_call_bool {
-                write_space(printer, stream);
-                write_token(printer, stream, "returns");
-            }
-        }
     }
 }
 
@@ -2275,6 +2268,9 @@ impl NodePrinter<SolidityAST> for TryStatementPrinter {
                 if i >= 1 {
                     write_token(printer, stream, "catch");
                     write_space(printer, stream);
+                } else if clause.get("parameters").is_some() {
+                    write_token(printer, stream, "returns");
+                    write_space(printer, stream);
                 }
                 traverse_sub_node_and_print(printer, stream, factory, clause);
                 if i < (clauses_array.len()) {
-- 
2.43.0


From 23a3c2a96a5aff139a9e5dd4581dfd642bb0909b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:06 +0000
Subject: [PATCH 07/73] fix: print inline arrays in brackets and empty tuples
 as ()

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 30 +++++++++++---------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 75914ae..9c0c6c9 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1651,23 +1651,25 @@ impl NodePrinter<SolidityAST> for TupleExpressionPrinter {
     ) {
         if let Some(components) = node.get("components") {
             if let Some(components_array) = components.as_array() {
-                if !components_array.is_empty() {
-                    write_token(printer, stream, "(");
-                    let mut i: usize = 0;
-                    while i < components_array.len() {
-                        let value = components_array.get(i).unwrap();
-                        traverse_sub_node_and_print(printer, stream, factory, value);
-                        if i < (components_array.len() - 1) {
-                            write_token(printer, stream, ",");
-                            let next_node = components_array.get(i + 1).unwrap();
-                            if !next_node.is_null() {
-                                write_space(printer, stream);
-                            }
+                let (open, close) = match node.get_bool_for_key("isInlineArray") {
+                    Some(true) => ("[", "]"),
+                    _ => ("(", ")"),
+                };
+                write_token(printer, stream, open);
+                let mut i: usize = 0;
+                while i < components_array.len() {
+                    let value = components_array.get(i).unwrap();
+                    traverse_sub_node_and_print(printer, stream, factory, value);
+                    if i < (components_array.len() - 1) {
+                        write_token(printer, stream, ",");
+                        let next_node = components_array.get(i + 1).unwrap();
+                        if !next_node.is_null() {
+                            write_space(printer, stream);
                         }
-                        i += 1;
                     }
-                    write_token(printer, stream, ")");
+                    i += 1;
                 }
+                write_token(printer, stream, close);
             }
         }
     }
-- 
2.43.0


From 9f12a7db3d4287d75713f76db312cedfe2c6f2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:06 +0000
Subject: [PATCH 08/73] fix: print a Yul variable declaration without a value
 without :=

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 9c0c6c9..6cbb2f9 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1871,12 +1871,12 @@ impl NodePrinter<SolidityAST> for YulVariableDeclarationPrinter {
         if let Some(variables_node) = node.get("variables") {
             if let Some(variables_array) = variables_node.as_array() {
                 print_array_helper(printer, stream, factory, variables_array);
-                write_space(printer, stream);
             }
         }
-        write_token(printer, stream, ":=");
-        write_space(printer, stream);
         if let Some(value_node) = node.get("value") {
+            write_space(printer, stream);
+            write_token(printer, stream, ":=");
+            write_space(printer, stream);
             traverse_sub_node_and_print(printer, stream, factory, value_node);
         }
     }
-- 
2.43.0


From 38ae95d23e4b640a3f9fec517d969b9c086514f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:06 +0000
Subject: [PATCH 09/73] fix: print the return variables of a Yul function
 without parentheses

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 6cbb2f9..ec43da0 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -2496,15 +2496,7 @@ impl NodePrinter<SolidityAST> for YulFunctionDefinitionPrinter {
             if !return_vars_array.is_empty() {
                 write_token(printer, stream, "->");
                 write_space(printer, stream);
-                if return_vars_array.len() > 1 {
-                    write_token(printer, stream, "(");
-                }
-
                 print_array_helper(printer, stream, factory, return_vars_array);
-
-                if return_vars_array.len() > 1 {
-                    write_token(printer, stream, ")");
-                }
                 write_space(printer, stream);
             }
         }
-- 
2.43.0


From fded9a31273884d267ba6bf5d5163d48b6f20773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:06 +0000
Subject: [PATCH 10/73] fix: keep state mutability and return types of function
 types

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 21 +++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index ec43da0..0689d3a 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -153,14 +153,14 @@ fn print_arguments_helper(
 /// * `printer` - The [`PrettyPrinter`] object that will format the output text.
 /// * `stream` - The [`Write`] object that will received the formatted text.
 /// * `factory` - The [`SolidityNodePrinterFactory`] that generates printers for AST nodes.
-/// * `node` - The node in the Solidity AST.
+/// * `return_parameters` - The node with the return parameters, if any.
 fn print_return_parameters_helper(
     printer: &mut PrettyPrinter,
     stream: &mut dyn Write,
     factory: &dyn NodePrinterFactory<SolidityAST>,
-    node: &SolidityAST,
+    return_parameters: Option<&SolidityAST>,
 ) {
-    if let Some(return_parameters_node) = node.get("returnParameters") {
+    if let Some(return_parameters_node) = return_parameters {
         if let Some(parameters_array) = return_parameters_node.get_array_for_key("parameters") {
             if !parameters_array.is_empty() {
                 write_space(printer, stream);
@@ -743,7 +743,7 @@ impl NodePrinter<SolidityAST> for FunctionDefinitionPrinter {
             }
         }
 
-        print_return_parameters_helper(printer, stream, factory, node);
+        print_return_parameters_helper(printer, stream, factory, node.get("returnParameters"));
 
         if let Some(body) = node.get("body") {
             write_space(printer, stream);
@@ -2032,8 +2032,19 @@ impl NodePrinter<SolidityAST> for FunctionTypeNamePrinter {
                 write_token(printer, stream, visibility_str);
             }
         }
+        if let Some(mutability_str) = node.get_str_for_key("stateMutability") {
+            if mutability_str != "nonpayable" {
+                write_space(printer, stream);
+                write_token(printer, stream, mutability_str);
+            }
+        }
 
-        print_return_parameters_helper(printer, stream, factory, node);
+        print_return_parameters_helper(
+            printer,
+            stream,
+            factory,
+            node.get("returnParameterTypes"),
+        );
     }
 }
 
-- 
2.43.0


From 78f28d7e0ba6cf894b1eceb874ea29df492a6cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:06 +0000
Subject: [PATCH 11/73] fix: print free functions without a visibility

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 0689d3a..0827d23 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -705,12 +705,11 @@ impl NodePrinter<SolidityAST> for FunctionDefinitionPrinter {
         }
 
         if let Some(visibility) = node.get_str_for_key("visibility") {
-            write_space(printer, stream);
-            write_token(printer, stream, visibility);
-            // if visibility != "internal" {
-            //     write_space(printer, stream);
-            //     write_token(printer, stream, visibility);
-            // }
+            // Functions at file level do not have a visibility.
+            if node.get_str_for_key("kind") != Some("freeFunction") {
+                write_space(printer, stream);
+                write_token(printer, stream, visibility);
+            }
         }
 
         if let Some(virtual_bool) = node.get_bool_for_key("virtual") {
-- 
2.43.0


From 0a29c1ab995cd9e41004868a3f0a506f6f04905e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:06 +0000
Subject: [PATCH 12/73] fix: print the functions and the * of using directives

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 0827d23..f425fd9 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1404,7 +1404,7 @@ impl NodePrinter<SolidityAST> for UsingForDirectivePrinter {
                         factory,
                         function_list_array,
                         |p, s, _f, n| {
-                            if let Some(definition) = n.get("definition") {
+                            if let Some(definition) = n.get("definition").or(n.get("function")) {
                                 if let Some(name) = definition.get_str_for_key("name") {
                                     write_token(p, s, name);
                                 }
@@ -1434,6 +1434,8 @@ impl NodePrinter<SolidityAST> for UsingForDirectivePrinter {
         write_space(printer, stream);
         if let Some(type_name) = node.get("typeName") {
             traverse_sub_node_and_print(printer, stream, factory, type_name);
+        } else {
+            write_token(printer, stream, "*");
         }
 
         if let Some(global_bool) = node.get_bool_for_key("global") {
-- 
2.43.0


From e603da32886056ce3a26d2b5b9fb45bbba79673f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:06 +0000
Subject: [PATCH 13/73] fix: print index range accesses with their brackets and
 colon

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 31 ++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index f425fd9..ac19800 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1192,6 +1192,36 @@ impl NodePrinter<SolidityAST> for IndexAccessPrinter {
     }
 }
 
+struct IndexRangeAccessPrinter {}
+
+impl NodePrinter<SolidityAST> for IndexRangeAccessPrinter {
+    fn print_node(
+        &mut self,
+        printer: &mut PrettyPrinter,
+        stream: &mut dyn Write,
+        factory: &dyn NodePrinterFactory<SolidityAST>,
+        node: &SolidityAST,
+    ) {
+        if let Some(base_expression) = node.get("baseExpression") {
+            traverse_sub_node_and_print(printer, stream, factory, base_expression);
+        }
+
+        write_token(printer, stream, "[");
+
+        if let Some(start_expression) = node.get("startExpression") {
+            traverse_sub_node_and_print(printer, stream, factory, start_expression);
+        }
+
+        write_token(printer, stream, ":");
+
+        if let Some(end_expression) = node.get("endExpression") {
+            traverse_sub_node_and_print(printer, stream, factory, end_expression);
+        }
+
+        write_token(printer, stream, "]");
+    }
+}
+
 struct IfStatementPrinter {}
 
 impl NodePrinter<SolidityAST> for IfStatementPrinter {
@@ -2641,6 +2671,7 @@ impl NodePrinterFactory<SolidityAST> for SolidityNodePrinterFactory {
                 "IfStatement" => Box::new(IfStatementPrinter {}),
                 "ImportDirective" => Box::new(ImportDirectivePrinter {}),
                 "IndexAccess" => Box::new(IndexAccessPrinter {}),
+                "IndexRangeAccess" => Box::new(IndexRangeAccessPrinter {}),
                 "InheritanceSpecifier" => Box::new(InheritanceSpecifierPrinter {}),
                 "InlineAssembly" => Box::new(InlineAssemblyPrinter {}),
                 "Literal" => Box::new(LiteralPrinter {}),
-- 
2.43.0


From 45c19af86dd029aa8d925c47ed7b7f2ea1c6231f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:06 +0000
Subject: [PATCH 14/73] fix: keep the key and value names of mappings

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index ac19800..707db58 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -539,6 +539,13 @@ impl NodePrinter<SolidityAST> for MappingPrinter {
             traverse_sub_node_and_print(printer, stream, factory, key);
         }
 
+        if let Some(key_name) = node.get_str_for_key("keyName") {
+            if !key_name.is_empty() {
+                write_space(printer, stream);
+                write_token(printer, stream, key_name);
+            }
+        }
+
         write_space(printer, stream);
         write_token(printer, stream, "=>");
         write_space(printer, stream);
@@ -547,6 +554,13 @@ impl NodePrinter<SolidityAST> for MappingPrinter {
             traverse_sub_node_and_print(printer, stream, factory, value);
         }
 
+        if let Some(value_name) = node.get_str_for_key("valueName") {
+            if !value_name.is_empty() {
+                write_space(printer, stream);
+                write_token(printer, stream, value_name);
+            }
+        }
+
         write_token(printer, stream, ")");
     }
 }
-- 
2.43.0


From 14f2de498caad45571812282bcbef1c4ea8b4bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:06 +0000
Subject: [PATCH 15/73] fix: terminate modifiers without a body with a
 semicolon

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 707db58..f7cb976 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1534,6 +1534,8 @@ impl NodePrinter<SolidityAST> for ModifierDefinitionPrinter {
         if let Some(body) = node.get("body") {
             write_space(printer, stream);
             traverse_sub_node_and_print(printer, stream, factory, body);
+        } else {
+            write_token(printer, stream, ";");
         }
     }
 }
-- 
2.43.0


From fb9c5bc39e6f23c1bb79a4df2ec8dfa0b4f9084f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:52 +0000
Subject: [PATCH 16/73] fix: escape quotes, backslashes and control characters
 in Solidity strings

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 57 ++++++--------------
 1 file changed, 16 insertions(+), 41 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index f7cb976..383e8e3 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -172,7 +172,8 @@ fn print_return_parameters_helper(
     }
 }
 
-/// Change any non-ASCII characters into a Solidity escaped character form.
+/// Change any characters that Solidity does not allow inside of a string literal into a Solidity
+/// escaped character form.
 ///
 /// # Arguments
 ///
@@ -183,48 +184,22 @@ fn unencode_string(s: &str) -> String {
     for c in s.chars() {
         let c_code = c as u32;
 
-        if c_code < 32 {
-            match c_code {
-                8 => {
-                    // backspace
-                    unencoded_s.push('\\');
-                    unencoded_s.push('b');
-                }
-                9 => {
-                    // horizontal tab
-                    unencoded_s.push('\\');
-                    unencoded_s.push('t');
-                }
-                10 => {
-                    // new line/line feed
-                    unencoded_s.push('\\');
-                    unencoded_s.push('n');
-                }
-                11 => {
-                    // vertical tab
-                    unencoded_s.push('\\');
-                    unencoded_s.push('v');
-                }
-                12 => {
-                    // form feed
-                    unencoded_s.push('\\');
-                    unencoded_s.push('f');
-                }
-                13 => {
-                    // carriage return
-                    unencoded_s.push('\\');
-                    unencoded_s.push('r');
-                }
-                _ => {
-                    let converted_char = format!("\\x{:x}", c_code);
-                    unencoded_s += converted_char.as_str();
+        match c {
+            '"' => unencoded_s.push_str("\\\""),
+            '\\' => unencoded_s.push_str("\\\\"),
+            '\t' => unencoded_s.push_str("\\t"),
+            '\n' => unencoded_s.push_str("\\n"),
+            '\r' => unencoded_s.push_str("\\r"),
+            ' '..='~' => unencoded_s.push(c),
+            _ if c_code < 0x80 => unencoded_s += format!("\\x{:02x}", c_code).as_str(),
+            _ if c_code < 0x10000 => unencoded_s += format!("\\u{:04x}", c_code).as_str(),
+            _ => {
+                // The \u escape form only has four digits, write the bytes of the character.
+                let mut buffer = [0; 4];
+                for byte in c.encode_utf8(&mut buffer).bytes() {
+                    unencoded_s += format!("\\x{:02x}", byte).as_str();
                 }
             }
-        } else if (32..127).contains(&c_code) {
-            unencoded_s.push(c);
-        } else {
-            let converted_char = format!("\\u{:x}", c_code);
-            unencoded_s += converted_char.as_str();
         }
     }
 
-- 
2.43.0


From 86c9ebcb9dc6dc40b76a2663c55d650281d916ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:52 +0000
Subject: [PATCH 17/73] fix: print hex strings, unicode strings and strings
 that are not UTF-8 with their exact bytes

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 46 +++++++++++++++-----
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 383e8e3..b06d86b 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -206,6 +206,20 @@ fn unencode_string(s: &str) -> String {
     unencoded_s
 }
 
+/// Get the contents of a string literal in the form that can appear between double quotes.
+///
+/// # Arguments
+///
+/// * `node` - The literal node.  The compiler leaves out `value` when the bytes of the string are
+/// not valid UTF-8. In that case the function uses the bytes from `hexValue`.
+fn unencode_string_node(node: &SolidityAST) -> Option<String> {
+    if let Some(value) = node.get_str_for_key("value") {
+        return Some(unencode_string(value));
+    }
+    let bytes = hex::decode(node.get_str_for_key("hexValue")?).ok()?;
+    Some(bytes.iter().map(|b| format!("\\x{:02x}", b)).collect())
+}
+
 /// Return true if the string only contains ASCII digits and/or the '.' character.
 ///
 /// # Arguments
@@ -929,19 +943,31 @@ impl NodePrinter<SolidityAST> for LiteralPrinter {
         _factory: &dyn NodePrinterFactory<SolidityAST>,
         node: &SolidityAST,
     ) {
-        if let Some(value) = node.get_str_for_key("value") {
-            if let Some(kind) = node.get_str_for_key("kind") {
-                if kind == "string" {
-                    let unencoded_string = unencode_string(value);
+        match node.get_str_for_key("kind") {
+            Some("string") => {
+                if let Some(unencoded_string) = unencode_string_node(node) {
                     write_string(printer, stream, &unencoded_string);
-                } else if kind == "unicodeString" {
-                    write_token(printer, stream, "unicode");
-                    write_string(printer, stream, value);
-                } else {
+                }
+            }
+            Some("unicodeString") => {
+                if let Some(unencoded_string) = unencode_string_node(node) {
+                    // A single token, no line break can separate the prefix from the string.
+                    write_token(
+                        printer,
+                        stream,
+                        format!("unicode\"{}\"", unencoded_string).as_str(),
+                    );
+                }
+            }
+            Some("hexString") => {
+                if let Some(hex_value) = node.get_str_for_key("hexValue") {
+                    write_token(printer, stream, format!("hex\"{}\"", hex_value).as_str());
+                }
+            }
+            _ => {
+                if let Some(value) = node.get_str_for_key("value") {
                     write_token(printer, stream, value);
                 }
-            } else {
-                write_token(printer, stream, value);
             }
         }
 
-- 
2.43.0


From 2e466b3e5b112bdc22ab4b76c4c1e3571e216e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:52 +0000
Subject: [PATCH 18/73] fix: escape Yul string literals and import paths

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index b06d86b..f685ca8 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1357,7 +1357,7 @@ impl NodePrinter<SolidityAST> for ImportDirectivePrinter {
         }
 
         if let Some(file) = node.get_str_for_key("file") {
-            write_string(printer, stream, file);
+            write_string(printer, stream, &unencode_string(file));
         }
 
         if let Some(unit_alias_str) = node.get_str_for_key("unitAlias") {
@@ -2008,8 +2008,8 @@ impl NodePrinter<SolidityAST> for YulLiteralPrinter {
                     write_token(printer, stream, value_str);
                 }
             } else if kind_str == "string" {
-                if let Some(value_str) = node.get_str_for_key("value") {
-                    write_string(printer, stream, value_str);
+                if let Some(unencoded_string) = unencode_string_node(node) {
+                    write_string(printer, stream, &unencoded_string);
                 }
             }
         }
-- 
2.43.0


From 5aa11ef899f23ba42531abaadf04cecfd715593b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:56 +0000
Subject: [PATCH 19/73] fix: let words that are wider than the page overflow
 when flowing text

---
 mutagenyx_lib/src/pretty_printer.rs | 112 +++++++++++-----------------
 1 file changed, 43 insertions(+), 69 deletions(-)

diff --git a/mutagenyx_lib/src/pretty_printer.rs b/mutagenyx_lib/src/pretty_printer.rs
index 6f554b3..82ad17d 100644
--- a/mutagenyx_lib/src/pretty_printer.rs
+++ b/mutagenyx_lib/src/pretty_printer.rs
@@ -331,83 +331,57 @@ impl PrettyPrinter {
         // until we have no more double spaces.
         text.remove_all("  ");
 
-        let t = text.as_str();
+        let mut t = text.as_str();
 
-        if t.len() > (self.page_width - self.column) {
-            let space_left = self.page_width - self.column;
-            if space_left == 0 {
-                self.write_newline(stream)?;
-                self.write_indent(stream)?;
-                self.write_token(stream, next_line_text)?;
-                self.write_flowable_text(stream, t, next_line_text)?;
-            } else {
-                // Here we carefully examine the breakpoint of the text to see if we are breaking
-                // the text mid-word, or on a space boundary.  If we are breaking mid-word, then
-                // we back up the break point to the last space character and put the next full word
-                // on a newline.  This behavior prevents output flowable text from having wierd breaks
-                // in words.
-                let mut index_of_start_of_word: usize = 0;
-                let mut i: usize = 0;
-                let mut previous_char_was_space = false;
-                let bytes = t.as_bytes();
-
-                // First walk through the text that would fit in the remaining space and find any
-                // word boundaries.  We use a ' ' (space) character as the word boundary.
-                while i < space_left {
-                    if bytes[i] as char == ' ' {
-                        previous_char_was_space = true;
-                    } else {
-                        if previous_char_was_space {
-                            index_of_start_of_word = i;
-                        }
-                        previous_char_was_space = false;
-                    }
+        // True while the current line only contains the indentation and `next_line_text`.
+        let mut at_start_of_line = false;
 
-                    i += 1;
-                }
+        loop {
+            let space_left = self.page_width.saturating_sub(self.column);
+            if t.len() <= space_left {
+                self.write_basic_string(stream, t)?;
+                return Ok(());
+            }
 
-                let first_part: &str;
-                let rest: &str;
-
-                // Now, check the end of the text at the space_left boundary and see if it is a
-                // ' ' (space) character or a text character.  If it is a space character, then we
-                // can break the text exactly on the space_left boundary.  If not, we go back
-                // to the previous space and put the with the partial word on the next line.
-                //
-                // NOTE: The algorithm makes no attempt to correctly break text with spaces enclosed
-                // in quotation marks (either single or double).
-                if bytes[i] as char == ' ' {
-                    first_part = &t[..space_left];
-                    rest = if bytes[space_left] as char == ' ' {
-                        &t[space_left + 1..]
-                    } else {
-                        &t[space_left..]
-                    };
+            // Here we carefully examine the breakpoint of the text to see if we are breaking
+            // the text mid-word, or on a space boundary.  If we are breaking mid-word, then
+            // we back up the break point to the last space character and put the next full word
+            // on a newline.  This behavior prevents output flowable text from having wierd breaks
+            // in words.
+            //
+            // NOTE: The algorithm makes no attempt to correctly break text with spaces enclosed
+            // in quotation marks (either single or double).
+            let bytes = t.as_bytes();
+            let (first_part, rest) = if bytes[space_left] == b' ' {
+                (&t[..space_left], &t[space_left + 1..])
+            } else {
+                let index_of_start_of_word = (1..space_left)
+                    .rev()
+                    .find(|i| bytes[i - 1] == b' ' && bytes[*i] != b' ')
+                    .unwrap_or(0);
+                if index_of_start_of_word == 0 && at_start_of_line {
+                    // The word does not fit on any line, let the word spill over the page width.
+                    match t.find(' ') {
+                        Some(i) => (&t[..i], &t[i + 1..]),
+                        None => (t, ""),
+                    }
                 } else {
-                    first_part = &t[..index_of_start_of_word];
-                    rest = if bytes[index_of_start_of_word] as char == ' ' {
-                        &t[index_of_start_of_word + 1..]
-                    } else {
-                        &t[index_of_start_of_word..]
-                    };
+                    (&t[..index_of_start_of_word], &t[index_of_start_of_word..])
                 }
+            };
 
-                if !first_part.is_empty() {
-                    self.write_basic_string(stream, first_part)?;
-                }
-                self.write_newline(stream)?;
-                self.write_indent(stream)?;
-                self.write_token(stream, next_line_text)?;
-
-                if !rest.is_empty() {
-                    self.write_flowable_text(stream, rest, next_line_text)?;
-                }
+            if !first_part.is_empty() {
+                self.write_basic_string(stream, first_part)?;
             }
-        } else {
-            self.write_basic_string(stream, t)?;
+            if rest.is_empty() {
+                return Ok(());
+            }
+            self.write_newline(stream)?;
+            self.write_indent(stream)?;
+            self.write_token(stream, next_line_text)?;
+            at_start_of_line = true;
+            t = rest;
         }
-
-        Ok(())
     }
 
     /// Reset the printer output counters
-- 
2.43.0


From 83942a76e86c2993fc8a267d1a67075755c2584b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:56 +0000
Subject: [PATCH 20/73] fix: keep documentation text from ending its comment

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index f685ca8..e76310f 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1569,7 +1569,9 @@ impl NodePrinter<SolidityAST> for StructuredDocumentationPrinter {
                 write_space(printer, stream);
                 write_token(printer, stream, "*");
                 write_space(printer, stream);
-                write_flowable_text(printer, stream, sub_text, " *   ");
+                // The text must not end the comment.
+                let sub_text = sub_text.replace("*/", "* /");
+                write_flowable_text(printer, stream, &sub_text, " *   ");
             }
         }
     }
-- 
2.43.0


From 44e400a03fb44787a2d7328a0573f85f10ab2708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:56 +0000
Subject: [PATCH 21/73] fix: keep a minus operator apart from an operand that
 starts with a minus

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 45 ++++++++++++++++++--
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index e76310f..d8a4be5 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1126,6 +1126,40 @@ impl NodePrinter<SolidityAST> for FunctionCallPrinter {
     }
 }
 
+/// Return true if the text of the expression starts with a minus sign.
+///
+/// # Arguments
+///
+/// * `node` - The expression node.
+fn starts_with_minus(node: Option<&SolidityAST>) -> bool {
+    let node = match node {
+        Some(node) => node,
+        None => return false,
+    };
+    if let Some(true) = node.get_bool_for_key("prefix") {
+        if let Some(operator) = node.get_str_for_key("operator") {
+            return operator.starts_with('-');
+        }
+    }
+    if let Some(value) = node.get_str_for_key("value") {
+        return value.starts_with('-');
+    }
+    // The node types that start with the text of another expression.
+    for key in [
+        "leftExpression",
+        "leftHandSide",
+        "condition",
+        "subExpression",
+        "baseExpression",
+        "expression",
+    ] {
+        if let Some(first) = node.get(key) {
+            return starts_with_minus(Some(first));
+        }
+    }
+    false
+}
+
 struct UnaryOperationPrinter {}
 
 impl NodePrinter<SolidityAST> for UnaryOperationPrinter {
@@ -1139,11 +1173,14 @@ impl NodePrinter<SolidityAST> for UnaryOperationPrinter {
         if let Some(prefix) = node.get_bool_for_key("prefix") {
             if prefix {
                 if let Some(operator) = node.get_str_for_key("operator") {
-                    if operator == "delete" {
-                        write_token(printer, stream, "delete");
+                    write_token(printer, stream, operator);
+                    // A space prevents an operator from merging with the text after it, for
+                    // example in 'delete x' and '- -x'.
+                    if operator == "delete"
+                        || (operator.starts_with('-')
+                            && starts_with_minus(node.get("subExpression")))
+                    {
                         write_space(printer, stream);
-                    } else {
-                        write_token(printer, stream, operator);
                     }
                 }
             }
-- 
2.43.0


From d04191c22562829cf3ecead24a585e953e78bfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:24 +0000
Subject: [PATCH 22/73] fix: do not offer Solidity calls with only literal
 arguments to FunctionCall

mutate() looked for a non-literal argument forever.
---
 mutagenyx_lib/src/solidity/mutators.rs | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index e547ad9..19a654d 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -877,25 +877,11 @@ impl Mutator<SolidityAST> for FunctionCallMutator {
             if node_type == "FunctionCall" {
                 if let Some(arguments_node) = node.get("arguments") {
                     if let Some(arguments_array) = arguments_node.as_array() {
-                        if !arguments_array.is_empty() {
-                            let mut has_literal = false;
-                            for value in arguments_array {
-                                if let Some(value_node_type) = value.get_str_for_key("nodeType") {
-                                    if value_node_type == "Literal" {
-                                        has_literal = true;
-                                        break;
-                                    }
-                                }
-                            }
-
-                            if has_literal && arguments_array.len() > 1 {
-                                return true;
-                            } else if has_literal {
-                                return false;
-                            }
-
-                            return true;
-                        }
+                        // The mutation never picks a Literal argument, so there must be at least
+                        // one other argument to pick.
+                        return arguments_array
+                            .iter()
+                            .any(|value| value.get_str_for_key("nodeType") != Some("Literal"));
                     }
                 }
             }
-- 
2.43.0


From 4a4a3364e027bb6815ea343d2e595159686a0a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:24 +0000
Subject: [PATCH 23/73] fix: require two statements other than returns for
 SwapLines in Solidity

A block with several return statements made mutate() search forever.
---
 mutagenyx_lib/src/solidity/mutators.rs | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index 19a654d..154a401 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -1494,25 +1494,13 @@ impl Mutator<SolidityAST> for SwapLinesMutator {
             if node_type == "Block" {
                 if let Some(statements_node) = node.get("statements") {
                     if let Some(statements_array) = statements_node.as_array() {
-                        if statements_array.len() >= 2 {
-                            let mut found_return_statement = false;
-                            for value in statements_array {
-                                if let Some(value_node_type) = value.get_str_for_key("nodeType") {
-                                    if value_node_type == "Return" {
-                                        found_return_statement = true;
-                                        break;
-                                    }
-                                }
-                            }
-
-                            // If the body of the function def has a return statement, then there
-                            // must be at least 3 statements in the body in order to swap (but not
-                            // swap a return statement) statements.  If there are no return statements
-                            // then we can just go ahead and swap.
-                            if !found_return_statement || statements_array.len() >= 3 {
-                                return true;
-                            }
-                        }
+                        // The mutation never moves a return statement, so there must be at least
+                        // two other statements to swap.
+                        let swappable_statements = statements_array
+                            .iter()
+                            .filter(|value| value.get_str_for_key("nodeType") != Some("Return"))
+                            .count();
+                        return swappable_statements >= 2;
                     }
                 }
             }
-- 
2.43.0


From 1ff0a855ee36c91e792ae3540793f342616f7834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:24 +0000
Subject: [PATCH 24/73] fix: require a statement that can be wrapped for
 UncheckedBlock

A block with only unchecked blocks or only returns made mutate() search forever.
---
 mutagenyx_lib/src/solidity/mutators.rs | 39 ++++++--------------------
 1 file changed, 8 insertions(+), 31 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index 154a401..16ee654 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -1820,37 +1820,14 @@ impl Mutator<SolidityAST> for SolidityUncheckedBlockMutator {
             if node_type == "Block" {
                 if let Some(statements_node) = node.get("statements") {
                     if let Some(statements_array) = statements_node.as_array() {
-                        if !statements_array.is_empty() {
-                            let mut have_return_statement = false;
-                            let mut have_unchecked_block_statement = false;
-                            let mut required_length: usize = 1;
-                            for value in statements_array {
-                                if let Some(value_node_type) = value.get_str_for_key("nodeType") {
-                                    if (!have_return_statement) && value_node_type == "Return" {
-                                        have_return_statement = true;
-                                        required_length += 1;
-                                    }
-                                    if (!have_unchecked_block_statement)
-                                        && value_node_type == "UncheckedBlock"
-                                    {
-                                        have_unchecked_block_statement = true;
-                                        required_length += 1;
-                                    }
-
-                                    if have_return_statement && have_unchecked_block_statement {
-                                        break;
-                                    }
-                                }
-                            }
-
-                            // If the Block node has a return statement and/or an UncheckedBlock statement,
-                            // we need at least one more statement than block + unchecked block
-                            // in order for the algorithm to work.  We do not wrap a return statement
-                            // or an unchecked block statement in unchecked{}.
-                            if statements_array.len() >= required_length {
-                                return true;
-                            }
-                        }
+                        // We do not wrap a return statement or an unchecked block statement in
+                        // unchecked{}, so there must be at least one other statement to wrap.
+                        return statements_array.iter().any(|value| {
+                            !matches!(
+                                value.get_str_for_key("nodeType"),
+                                Some("Return") | Some("UncheckedBlock")
+                            )
+                        });
                     }
                 }
             }
-- 
2.43.0


From a26855e25582ab46721704dc7663abbada443bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:24 +0000
Subject: [PATCH 25/73] fix: recognize that swapping two lines in either order
 is the same Solidity mutant

---
 mutagenyx_lib/src/solidity/mutators.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index 16ee654..86e3322 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -1537,8 +1537,6 @@ impl Mutator<SolidityAST> for SwapLinesMutator {
                     break;
                 }
 
-                hasher.update(&first_index.to_ne_bytes())?;
-
                 // Try to randomly pick a second node.
                 let mut second_index: usize;
                 loop {
@@ -1556,8 +1554,6 @@ impl Mutator<SolidityAST> for SwapLinesMutator {
                     break;
                 }
 
-                hasher.update(&second_index.to_ne_bytes())?;
-
                 let larger_index = if first_index >= second_index {
                     first_index
                 } else {
@@ -1570,6 +1566,10 @@ impl Mutator<SolidityAST> for SwapLinesMutator {
                     first_index
                 };
 
+                // Swapping the statements gives the same result in either order.
+                hasher.update(&smaller_index.to_ne_bytes())?;
+                hasher.update(&larger_index.to_ne_bytes())?;
+
                 let larger_node = statements_array.remove(larger_index);
                 let smaller_node = statements_array.remove(smaller_index);
 
-- 
2.43.0


From af4de589aff9587cf2a523a1e37ffeeaf3f3d1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:24 +0000
Subject: [PATCH 26/73] fix: select swapped Solidity arguments independently of
 hash map order

The same seed swapped different arguments in different runs.
---
 mutagenyx_lib/src/solidity/mutators.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index 86e3322..d8419f0 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -18,7 +18,7 @@ use rand::seq::SliceRandom;
 use rand::{Rng, RngCore};
 use rand_pcg::*;
 use serde_json::json;
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::fmt;
 
 /// Return a new integer literal node representing an integer literal number.
@@ -1030,7 +1030,8 @@ impl Mutator<SolidityAST> for SwapFunctionArgumentsMutator {
         // nodes of the same type so that we can swap them.
         if let Some(mut arguments_node) = node.take_value_for_key("arguments") {
             if let Some(arguments_array) = arguments_node.as_array_mut() {
-                let mut arg_map: HashMap<&str, Vec<IndexedNode>> = HashMap::new();
+                // The map must have a fixed order so that a seed always selects the same arguments.
+                let mut arg_map: BTreeMap<&str, Vec<IndexedNode>> = BTreeMap::new();
                 for (index, value) in arguments_array.iter().enumerate() {
                     if let Some(type_descriptions_node) = value.get("typeDescriptions") {
                         if let Some(type_string) =
-- 
2.43.0


From f73154e7dc885517d0210b23bbc75ac9e724a3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:24 +0000
Subject: [PATCH 27/73] fix: only offer assignments of integers and booleans to
 Assignment in Solidity

Types like uint256[] passed the check and made mutate() panic.
---
 mutagenyx_lib/src/solidity/mutators.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index d8419f0..eb1046d 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -541,13 +541,15 @@ impl Mutator<SolidityAST> for AssignmentMutator {
                     }
                 };
 
-                if type_string.len() < 3 {
-                    return false;
-                }
-
-                let first_three_chars = &type_string[..3];
-
-                return matches!(first_three_chars, "uin" | "int" | "boo");
+                // Other types (arrays, user defined types, ...) may start with the same letters.
+                let integer_size = type_string
+                    .strip_prefix("uint")
+                    .or_else(|| type_string.strip_prefix("int"));
+
+                return match integer_size {
+                    Some(size) => size.parse::<u32>().is_ok(),
+                    None => type_string == "bool",
+                };
             }
         }
         false
-- 
2.43.0


From e629504f0437a0a444b9eb46b60bd35e8f9c77d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:24 +0000
Subject: [PATCH 28/73] fix: do not overflow when choosing a value for wide
 signed integers

---
 mutagenyx_lib/src/solidity/mutators.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index eb1046d..540b19e 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -614,8 +614,11 @@ impl Mutator<SolidityAST> for AssignmentMutator {
                     type_size = 128;
                 }
 
-                let lower_bound = -(2_i128.pow(type_size - 1));
-                let upper_bound = 2_i128.pow(type_size - 1);
+                let (lower_bound, upper_bound) = if type_size < 128 {
+                    (-(2_i128.pow(type_size - 1)), 2_i128.pow(type_size - 1))
+                } else {
+                    (i128::MIN, i128::MAX)
+                };
                 let replacement_value = rand.gen_range(lower_bound, upper_bound);
 
                 hasher.update(&replacement_value.to_ne_bytes())?;
-- 
2.43.0


From a99f20a250a5ba437e6d9773e2f80e6ae29d83cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:24 +0000
Subject: [PATCH 29/73] fix: let Assignment choose true as well as false in
 Solidity

The upper bound of gen_range is exclusive.
---
 mutagenyx_lib/src/solidity/mutators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index 540b19e..c6c8d00 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -663,7 +663,7 @@ impl Mutator<SolidityAST> for AssignmentMutator {
                 hasher.update("boo".as_bytes())?;
 
                 assert_eq!(type_string, "bool");
-                let replacement_value: i8 = rand.gen_range(0, 1);
+                let replacement_value: i8 = rand.gen_range(0, 2);
                 let bool_literal: bool = replacement_value != 0;
 
                 hasher.update(&replacement_value.to_ne_bytes())?;
-- 
2.43.0


From de2d0ef93131f37b96f82e1232755ff3aad2bfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:24 +0000
Subject: [PATCH 30/73] fix: let Integer handle every notation and size of
 Solidity integer literals

Hexadecimal, underscored, exponent and large literals made mutate() panic.
---
 mutagenyx_lib/src/solidity/mutators.rs | 50 ++++++++++++++++----------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index c6c8d00..d760d87 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -12,7 +12,7 @@ use crate::solidity::ast::{SolidityAST, SolidityASTApi};
 use crate::solidity::pretty_printer::SolidityNodePrinterFactory;
 use crate::PrettyPrinter;
 use hex;
-use num::Integer;
+use num::{BigInt, Integer};
 use openssl::hash::{Hasher, MessageDigest};
 use rand::seq::SliceRandom;
 use rand::{Rng, RngCore};
@@ -1258,6 +1258,25 @@ impl Mutator<SolidityAST> for IfStatementMutator {
     }
 }
 
+/// Return the value of the text of a Solidity number literal if it is an integer in decimal (with or
+/// without an exponent) or hexadecimal notation.
+///
+/// # Arguments
+///
+/// * `text` - The text of the literal.
+fn integer_literal_value(text: &str) -> Option<BigInt> {
+    let digits = text.replace('_', "");
+    if let Some(hex_digits) = digits.strip_prefix("0x") {
+        return BigInt::parse_bytes(hex_digits.as_bytes(), 16);
+    }
+    let (mantissa, exponent) = match digits.split_once(|c| c == 'e' || c == 'E') {
+        Some((mantissa, exponent)) => (mantissa, exponent.parse::<u16>().ok()?),
+        None => (digits.as_str(), 0),
+    };
+    let value = BigInt::parse_bytes(mantissa.as_bytes(), 10)?;
+    Some(value * BigInt::from(10).pow(exponent.into()))
+}
+
 /// Implement the Integer mutation algorithm:
 ///
 /// Randomly selects one from the following:
@@ -1284,12 +1303,7 @@ impl Mutator<SolidityAST> for IntegerMutator {
                 if let Some(kind) = node.get_str_for_key("kind") {
                     if kind == "number" {
                         if let Some(value) = node.get_str_for_key("value") {
-                            let text = String::from(value);
-                            // Search for a . in the string which indicates a floating point number.
-                            let find_result = text.find('.');
-                            if find_result.is_none() {
-                                return true;
-                            }
+                            return integer_literal_value(value).is_some();
                         }
                     }
                 }
@@ -1319,24 +1333,22 @@ impl Mutator<SolidityAST> for IntegerMutator {
                 hasher.update(&[0])?;
                 // Add one to the integer constant.
                 if let Some(value) = node.get_str_for_key("value") {
-                    let value_string = value.to_string();
-                    original_value_s = value_string.clone();
-                    let mut my_integer = value_string.parse::<i64>().unwrap();
-                    my_integer += 1;
-                    new_value_s = my_integer.to_string();
-                    node.set_str_for_key("value", my_integer.to_string().as_str());
+                    original_value_s = value.to_string();
+                    if let Some(my_integer) = integer_literal_value(value) {
+                        new_value_s = (my_integer + 1_i32).to_string();
+                        node.set_str_for_key("value", &new_value_s);
+                    }
                 }
             }
             1 => {
                 hasher.update(&[1])?;
                 // Subtract one from the integer constant.
                 if let Some(value) = node.get_str_for_key("value") {
-                    let value_string = value.to_string();
-                    original_value_s = value_string.clone();
-                    let mut my_integer = value_string.parse::<i64>().unwrap();
-                    my_integer -= 1;
-                    new_value_s = my_integer.to_string();
-                    node.set_str_for_key("value", my_integer.to_string().as_str());
+                    original_value_s = value.to_string();
+                    if let Some(my_integer) = integer_literal_value(value) {
+                        new_value_s = (my_integer - 1_i32).to_string();
+                        node.set_str_for_key("value", &new_value_s);
+                    }
                 }
             }
             2 => {
-- 
2.43.0


From 8e4e38b8ea2002a06b2e050c7b64c5f3f3f74167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:26 +0000
Subject: [PATCH 31/73] fix: put a commented Solidity block back where it came
 from

Mutating the lines of an if, else, try or catch block dropped the block.
---
 mutagenyx_lib/src/solidity/commenter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/solidity/commenter.rs b/mutagenyx_lib/src/solidity/commenter.rs
index 0dfda92..c5a0ab1 100644
--- a/mutagenyx_lib/src/solidity/commenter.rs
+++ b/mutagenyx_lib/src/solidity/commenter.rs
@@ -56,7 +56,7 @@ fn insert_comment_into_node_with_key(
                         {
                             statements_array.insert(0, comment_node);
                         }
-                        node.set_node_for_key("body", body_node);
+                        node.set_node_for_key(key, body_node);
                         return true;
                     }
                 }
-- 
2.43.0


From 3ce5bd6d6427510a087a652fdc80492d2cbf4c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:26 +0000
Subject: [PATCH 32/73] fix: comment on mutations outside of contract members

Mutations of file level definitions, free function headers and base contract
arguments carried no comment.
---
 mutagenyx_lib/src/solidity/commenter.rs   | 17 +++++++++++++++++
 mutagenyx_lib/src/solidity/node_finder.rs | 17 +++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/mutagenyx_lib/src/solidity/commenter.rs b/mutagenyx_lib/src/solidity/commenter.rs
index c5a0ab1..1174567 100644
--- a/mutagenyx_lib/src/solidity/commenter.rs
+++ b/mutagenyx_lib/src/solidity/commenter.rs
@@ -219,6 +219,22 @@ impl Commenter<SolidityAST> for ModifierDefinitionCommenter {
     }
 }
 
+struct SourceUnitCommenter {}
+
+impl Commenter<SolidityAST> for SourceUnitCommenter {
+    fn insert_comment(
+        &self,
+        node: &mut SolidityAST,
+        node_id: u64,
+        comment_node: SolidityAST,
+        id_maker: &dyn Id<SolidityAST>,
+    ) {
+        if let Some(nodes_array) = node.get_array_for_key_mut("nodes") {
+            inserted_comment_in_array(nodes_array, comment_node, node_id, id_maker);
+        }
+    }
+}
+
 struct TryCatchClauseCommenter {}
 
 impl Commenter<SolidityAST> for TryCatchClauseCommenter {
@@ -261,6 +277,7 @@ impl CommenterFactory<SolidityAST> for SolidityCommenterFactory {
                 "FunctionDefinition" => Box::new(FunctionDefinitionCommenter {}),
                 "IfStatement" => Box::new(IfStatementCommenter {}),
                 "ModifierDefinition" => Box::new(ModifierDefinitionCommenter {}),
+                "SourceUnit" => Box::new(SourceUnitCommenter {}),
                 "TryCatchClause" => Box::new(TryCatchClauseCommenter {}),
                 "UncheckedBlock" => Box::new(GenericBlockCommenter {}),
                 "WhileStatement" => Box::new(WhileStatementCommenter {}),
diff --git a/mutagenyx_lib/src/solidity/node_finder.rs b/mutagenyx_lib/src/solidity/node_finder.rs
index a505161..e46094b 100644
--- a/mutagenyx_lib/src/solidity/node_finder.rs
+++ b/mutagenyx_lib/src/solidity/node_finder.rs
@@ -176,6 +176,22 @@ impl NodeFinder<SolidityAST> for ModifierDefinitionFinder {
     }
 }
 
+struct SourceUnitFinder {}
+
+impl NodeFinder<SolidityAST> for SourceUnitFinder {
+    fn node_is_a_direct_member(
+        &self,
+        node: &mut SolidityAST,
+        node_id: u64,
+        id_maker: &dyn Id<SolidityAST>,
+    ) -> bool {
+        if let Some(nodes_array) = node.get_array_for_key_mut("nodes") {
+            return found_node_id_in_array(nodes_array, node_id, id_maker);
+        }
+        false
+    }
+}
+
 struct TryCatchClauseFinder {}
 
 impl NodeFinder<SolidityAST> for TryCatchClauseFinder {
@@ -216,6 +232,7 @@ impl NodeFinderFactory<SolidityAST> for SolidityNodeFinderFactory {
                 "FunctionDefinition" => Box::new(FunctionDefinitionFinder {}),
                 "IfStatement" => Box::new(IfStatementFinder {}),
                 "ModifierDefinition" => Box::new(ModifierDefinitionFinder {}),
+                "SourceUnit" => Box::new(SourceUnitFinder {}),
                 "TryCatchClause" => Box::new(TryCatchClauseFinder {}),
                 "UncheckedBlock" => Box::new(GenericBlockFinder {}),
                 "WhileStatement" => Box::new(WhileStatementFinder {}),
-- 
2.43.0


From e966de0b1db977bb42a533432ba2a169725539e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:26 +0000
Subject: [PATCH 33/73] fix: keep all lines of a deleted Solidity statement in
 its comment

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index d8a4be5..782f15e 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1787,7 +1787,11 @@ impl NodePrinter<SolidityAST> for CommentPrinter {
         }
 
         if let Some(value_node) = node.get("value") {
-            traverse_sub_node_and_print(printer, stream, factory, value_node);
+            // The node may need more than one line and each line must be part of the comment.
+            let mut value_text: Vec<u8> = Vec::new();
+            let mut value_printer = PrettyPrinter::new(4, 150);
+            traverse_sub_node_and_print(&mut value_printer, &mut value_text, factory, value_node);
+            write_flowable_text(printer, stream, &String::from_utf8_lossy(&value_text), "// ");
         }
     }
 }
-- 
2.43.0


From ae80e4ecb41b0cf006b5723a3da2fda3c5e9596d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:26 +0000
Subject: [PATCH 34/73] fix: restrict mutations by name to functions

Any node with the name of a selected function was treated like that function, and
a reference to the function inside of it ended the permission to mutate its
remaining nodes.
---
 mutagenyx_lib/src/solidity/language_interface.rs |  8 ++++++--
 mutagenyx_lib/src/solidity/pretty_printer.rs     | 14 +++++++-------
 mutagenyx_lib/src/vyper/language_interface.rs    |  6 ++++--
 3 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/language_interface.rs b/mutagenyx_lib/src/solidity/language_interface.rs
index 70f9b41..55dea05 100644
--- a/mutagenyx_lib/src/solidity/language_interface.rs
+++ b/mutagenyx_lib/src/solidity/language_interface.rs
@@ -156,8 +156,12 @@ impl JSONLanguageDelegate for SolidityLanguageSubDelegate {
     }
 
     fn get_namer(&self) -> Box<dyn Namer<Value>> {
-        Box::new(JSONNamer::new(|v| {
-            v.get_str_for_key("name").map(String::from)
+        // Only functions can be selected by name, other nodes may have the same name as a function.
+        Box::new(JSONNamer::new(|v| match v.get_str_for_key("nodeType") {
+            Some("FunctionDefinition") | Some("ModifierDefinition") => {
+                v.get_str_for_key("name").map(String::from)
+            }
+            _ => None,
         }))
     }
 }
diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 782f15e..0123b71 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1791,7 +1791,12 @@ impl NodePrinter<SolidityAST> for CommentPrinter {
             let mut value_text: Vec<u8> = Vec::new();
             let mut value_printer = PrettyPrinter::new(4, 150);
             traverse_sub_node_and_print(&mut value_printer, &mut value_text, factory, value_node);
-            write_flowable_text(printer, stream, &String::from_utf8_lossy(&value_text), "// ");
+            write_flowable_text(
+                printer,
+                stream,
+                &String::from_utf8_lossy(&value_text),
+                "// ",
+            );
         }
     }
 }
@@ -2130,12 +2135,7 @@ impl NodePrinter<SolidityAST> for FunctionTypeNamePrinter {
             }
         }
 
-        print_return_parameters_helper(
-            printer,
-            stream,
-            factory,
-            node.get("returnParameterTypes"),
-        );
+        print_return_parameters_helper(printer, stream, factory, node.get("returnParameterTypes"));
     }
 }
 
diff --git a/mutagenyx_lib/src/vyper/language_interface.rs b/mutagenyx_lib/src/vyper/language_interface.rs
index e282051..c8241fe 100644
--- a/mutagenyx_lib/src/vyper/language_interface.rs
+++ b/mutagenyx_lib/src/vyper/language_interface.rs
@@ -160,8 +160,10 @@ impl JSONLanguageDelegate for VyperLanguageDelegate {
     }
 
     fn get_namer(&self) -> Box<dyn Namer<Value>> {
-        Box::new(JSONNamer::new(|v| {
-            v.get_str_for_key("name").map(String::from)
+        // Only functions can be selected by name, other nodes may have the same name as a function.
+        Box::new(JSONNamer::new(|v| match v.get_str_for_key("ast_type") {
+            Some("FunctionDef") => v.get_str_for_key("name").map(String::from),
+            _ => None,
         }))
     }
 }
-- 
2.43.0


From 321167b52296c6046fce4214a0d014b7b1a8c38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:59 +0000
Subject: [PATCH 35/73] fix: print the minus of Vyper negations

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index 2f85f28..464a7a0 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -964,6 +964,8 @@ impl NodePrinter<VyperAST> for UnaryOpPrinter {
                     needs_space = true;
                 } else if op_str == "Invert" {
                     write_token(printer, stream, "~");
+                } else if op_str == "USub" {
+                    write_token(printer, stream, "-");
                 }
             }
         }
-- 
2.43.0


From 23307c9cc4ffcf5bd5fdd7668edfcec19fe33a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:59 +0000
Subject: [PATCH 36/73] fix: support the shift operators of Vyper

---
 mutagenyx_lib/src/vyper/operators.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mutagenyx_lib/src/vyper/operators.rs b/mutagenyx_lib/src/vyper/operators.rs
index 3c44a84..0f5da37 100644
--- a/mutagenyx_lib/src/vyper/operators.rs
+++ b/mutagenyx_lib/src/vyper/operators.rs
@@ -14,6 +14,8 @@ pub fn get_python_operator_map() -> HashMap<&'static str, &'static str> {
     operator_map.insert("BitAnd", "&");
     operator_map.insert("BitOr", "|");
     operator_map.insert("BitXor", "^");
+    operator_map.insert("LShift", "<<");
+    operator_map.insert("RShift", ">>");
     operator_map.insert("Eq", "==");
     operator_map.insert("NotEq", "!=");
     operator_map.insert("Gt", ">");
-- 
2.43.0


From 6f0f35ed1c596033258b87607de07e264910177a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:59 +0000
Subject: [PATCH 37/73] fix: do not panic on Vyper operators that are not in
 the operator map

---
 mutagenyx_lib/src/vyper/mutators.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/mutators.rs b/mutagenyx_lib/src/vyper/mutators.rs
index b6b93f7..4a4083b 100644
--- a/mutagenyx_lib/src/vyper/mutators.rs
+++ b/mutagenyx_lib/src/vyper/mutators.rs
@@ -1469,9 +1469,10 @@ impl Mutator<VyperAST> for SwapOperatorArgumentsMutator {
             if ast_type == "BinOp" || ast_type == "BoolOp" || ast_type == "Compare" {
                 if let Some(op_node) = node.get("op") {
                     if let Some(op_string) = op_node.get_str_for_key("ast_type") {
-                        let converted_operator = self.operator_map[&op_string];
-                        if self.valid_operators.contains(&converted_operator) {
-                            return true;
+                        if let Some(converted_operator) = self.operator_map.get(op_string) {
+                            if self.valid_operators.contains(converted_operator) {
+                                return true;
+                            }
                         }
                     }
                 }
-- 
2.43.0


From bedba2540c0edc70eb5f7da45745805f1e4e09d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:59 +0000
Subject: [PATCH 38/73] fix: print all the operands of a Vyper boolean
 operation

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index 464a7a0..beb9f85 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -761,18 +761,18 @@ impl NodePrinter<VyperAST> for BoolOpPrinter {
                     return;
                 }
 
-                let left = &values_array[0];
-                let right = &values_array[1];
+                write_node_with_parens_maybe(printer, stream, factory, &values_array[0]);
 
-                write_node_with_parens_maybe(printer, stream, factory, left);
-                write_space(printer, stream);
+                for value in &values_array[1..] {
+                    write_space(printer, stream);
 
-                if let Some(op_node) = node.get("op") {
-                    traverse_sub_node_and_print(printer, stream, factory, op_node);
-                }
+                    if let Some(op_node) = node.get("op") {
+                        traverse_sub_node_and_print(printer, stream, factory, op_node);
+                    }
 
-                write_space(printer, stream);
-                write_node_with_parens_maybe(printer, stream, factory, right);
+                    write_space(printer, stream);
+                    write_node_with_parens_maybe(printer, stream, factory, value);
+                }
             }
         }
     }
-- 
2.43.0


From 3904a5c554eca78d078f12db41a095bd9331f758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:59 +0000
Subject: [PATCH 39/73] fix: escape the contents of Vyper strings and doc
 strings

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 42 +++++++++++++++++++++--
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index beb9f85..fe58c2f 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -245,6 +245,40 @@ fn write_value_string_as_token(
     }
 }
 
+/// Escape the characters that cannot stand as they are inside of a Vyper string literal.
+///
+/// # Arguments
+///
+/// * `text` - The contents of the string.
+fn escape_string(text: &str) -> String {
+    let mut escaped = String::new();
+    for c in text.chars() {
+        match c {
+            '\\' => escaped.push_str("\\\\"),
+            '"' => escaped.push_str("\\\""),
+            '\n' => escaped.push_str("\\n"),
+            '\r' => escaped.push_str("\\r"),
+            '\t' => escaped.push_str("\\t"),
+            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
+                escaped.push_str(&format!("\\x{:02x}", c as u32))
+            }
+            c => escaped.push(c),
+        }
+    }
+    escaped
+}
+
+/// Escape the characters that cannot stand as they are inside of a Vyper doc string.
+///
+/// # Arguments
+///
+/// * `text` - The contents of the doc string.
+fn escape_doc_string(text: &str) -> String {
+    text.replace('\\', "\\\\")
+        .replace('"', "\\\"")
+        .replace('\r', "\\r")
+}
+
 /// Return the string containing the pretty-printed form of `node`.
 ///
 /// # Arguments
@@ -498,7 +532,8 @@ impl NodePrinter<VyperAST> for FunctionDefPrinter {
                 if let Some(doc_string) = doc_string_node.get_str_for_key("value") {
                     write_newline(printer, stream);
                     write_indent(printer, stream);
-                    let doc_string_text = String::from(doc_string);
+                    let doc_string_text = escape_doc_string(doc_string);
+                    let doc_string = doc_string_text.as_str();
                     if let Some(_newline_index) = doc_string_text.find('\n') {
                         write_triple_string(printer, stream, doc_string);
                     } else {
@@ -814,7 +849,7 @@ impl NodePrinter<VyperAST> for StrPrinter {
         node: &VyperAST,
     ) {
         if let Some(value_str) = node.get_str_for_key("value") {
-            write_string(printer, stream, value_str);
+            write_string(printer, stream, &escape_string(value_str));
         }
     }
 }
@@ -831,7 +866,8 @@ impl NodePrinter<VyperAST> for ModulePrinter {
     ) {
         if let Some(doc_string_node) = node.get("doc_string") {
             if let Some(doc_string) = doc_string_node.get_str_for_key("value") {
-                let doc_text = String::from(doc_string);
+                let doc_text = escape_doc_string(doc_string);
+                let doc_string = doc_text.as_str();
                 if let Some(_newline_index) = doc_text.find('\n') {
                     write_triple_string(printer, stream, doc_string)
                 } else {
-- 
2.43.0


From 1182843187f98cd857f00758ff3f0d99bd509ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:59 +0000
Subject: [PATCH 40/73] fix: print Vyper calls that only have keyword arguments
 without a leading comma

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index fe58c2f..ab06ca7 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -947,8 +947,14 @@ impl NodePrinter<VyperAST> for CallPrinter {
         if let Some(keywords_node) = node.get("keywords") {
             if let Some(keywords_array) = keywords_node.as_array() {
                 if !keywords_array.is_empty() {
-                    write_token(printer, stream, ",");
-                    write_space(printer, stream);
+                    let has_args = match node.get_array_for_key("args") {
+                        Some(args_array) => !args_array.is_empty(),
+                        None => false,
+                    };
+                    if has_args {
+                        write_token(printer, stream, ",");
+                        write_space(printer, stream);
+                    }
                     write_key_of_node_as_array(printer, stream, factory, "keywords", node);
                 }
             }
-- 
2.43.0


From 8ae066ac01c31654b362510775e5d8c1b73a31da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:59 +0000
Subject: [PATCH 41/73] fix: do not break the lines of Vyper statements

---
 mutagenyx_lib/src/pretty_printer.rs       | 10 +++++++-
 mutagenyx_lib/src/vyper/pretty_printer.rs | 29 +++++++++++++++++++++--
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/mutagenyx_lib/src/pretty_printer.rs b/mutagenyx_lib/src/pretty_printer.rs
index 82ad17d..a999d80 100644
--- a/mutagenyx_lib/src/pretty_printer.rs
+++ b/mutagenyx_lib/src/pretty_printer.rs
@@ -15,6 +15,9 @@ pub struct PrettyPrinter {
     pub indent: usize,
     pub newline: String,
     pub max_indent: usize,
+
+    /// True if the printer may continue tokens on a new line to stay inside of the page width.
+    pub break_lines: bool,
 }
 
 impl PrettyPrinter {
@@ -43,6 +46,7 @@ impl PrettyPrinter {
             indent: 0,
             newline: String::from(newline),
             max_indent: max_indent as usize,
+            break_lines: true,
         }
     }
 
@@ -160,7 +164,7 @@ impl PrettyPrinter {
     ///
     /// * `stream` - The object that implements the [`Write`] trait.
     pub fn write_space(&mut self, stream: &mut dyn Write) -> Result<(), MutagenyxError> {
-        if self.column == self.page_width {
+        if self.break_lines && self.column == self.page_width {
             self.write_newline(stream)?;
             self.write_indent(stream)?;
         }
@@ -190,6 +194,10 @@ impl PrettyPrinter {
         stream: &mut dyn Write,
         token: &str,
     ) -> Result<(), MutagenyxError> {
+        if !self.break_lines {
+            return self.write_basic_string(stream, token);
+        }
+
         if self.column > self.page_width {
             // We have overreached on a previous write. Go to a newline.
             self.write_newline(stream)?;
diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index ab06ca7..427c93e 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -854,9 +854,34 @@ impl NodePrinter<VyperAST> for StrPrinter {
     }
 }
 
-struct ModulePrinter {}
+struct ModulePrinter {
+    /// The line breaking behavior of the printer before printing the module.
+    break_lines: bool,
+}
 
 impl NodePrinter<VyperAST> for ModulePrinter {
+    fn on_entry(
+        &mut self,
+        printer: &mut PrettyPrinter,
+        _stream: &mut dyn Write,
+        _factory: &dyn NodePrinterFactory<VyperAST>,
+        _node: &VyperAST,
+    ) {
+        // The end of a line ends a Vyper statement.
+        self.break_lines = printer.break_lines;
+        printer.break_lines = false;
+    }
+
+    fn on_exit(
+        &mut self,
+        printer: &mut PrettyPrinter,
+        _stream: &mut dyn Write,
+        _factory: &dyn NodePrinterFactory<VyperAST>,
+        _node: &VyperAST,
+    ) {
+        printer.break_lines = self.break_lines;
+    }
+
     fn print_node(
         &mut self,
         printer: &mut PrettyPrinter,
@@ -1641,7 +1666,7 @@ impl NodePrinterFactory<VyperAST> for VyperNodePrinterFactory {
                 "Compare" => Box::new(BinOpPrinter::new()),
                 "Assert" => Box::new(AssertPrinter {}),
                 "Str" => Box::new(StrPrinter {}),
-                "Module" => Box::new(ModulePrinter {}),
+                "Module" => Box::new(ModulePrinter { break_lines: true }),
                 "AnnAssign" => Box::new(AnnAssignPrinter {}),
                 "Expr" => Box::new(ExprPrinter {}),
                 "Call" => Box::new(CallPrinter {}),
-- 
2.43.0


From 9bfcbda64965677ad595d43741ca2f6bdbcf845d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:59 +0000
Subject: [PATCH 42/73] fix: print Vyper integers above the range of i64 with
 all their digits

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index 427c93e..0db2f2e 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -721,6 +721,8 @@ impl NodePrinter<VyperAST> for IntPrinter {
     ) {
         if let Some(value) = node.get_int_for_key("value") {
             write_token(printer, stream, &value.to_string());
+        } else if let Some(value) = node.get("value").and_then(|v| v.as_u64()) {
+            write_token(printer, stream, &value.to_string());
         } else if let Some(value) = node.get_float_for_key("value") {
             write_token(printer, stream, &value.to_string());
         }
-- 
2.43.0


From 6ac26944569f42bfc9b1b34e00a8b9303f1e5273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:59 +0000
Subject: [PATCH 43/73] fix: keep the leading dots of relative Vyper imports

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index 0db2f2e..ce87332 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -1333,12 +1333,14 @@ impl NodePrinter<VyperAST> for ImportFromPrinter {
         write_token(printer, stream, "from");
         write_space(printer, stream);
         if let Some(module_node) = node.get("module") {
+            let level = node.get_int_for_key("level").unwrap_or(0) as usize;
             if !module_node.is_null() {
+                write_token(printer, stream, &".".repeat(level));
                 if let Some(module_str) = module_node.as_str() {
                     write_token(printer, stream, module_str);
                 }
             } else {
-                write_token(printer, stream, ".");
+                write_token(printer, stream, &".".repeat(level.max(1)));
             }
             write_space(printer, stream);
         }
-- 
2.43.0


From 31069636511d6e53babeaf0747889b97ea590319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:59 +0000
Subject: [PATCH 44/73] fix: print Vyper conditional expressions

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 29 +++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index ce87332..edfae5b 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -1216,6 +1216,34 @@ impl NodePrinter<VyperAST> for IfPrinter {
     }
 }
 
+struct IfExpPrinter {}
+
+impl NodePrinter<VyperAST> for IfExpPrinter {
+    fn print_node(
+        &mut self,
+        printer: &mut PrettyPrinter,
+        stream: &mut dyn Write,
+        factory: &dyn NodePrinterFactory<VyperAST>,
+        node: &VyperAST,
+    ) {
+        if let Some(body_node) = node.get("body") {
+            write_node_with_parens_maybe(printer, stream, factory, body_node);
+        }
+        write_space(printer, stream);
+        write_token(printer, stream, "if");
+        write_space(printer, stream);
+        if let Some(test_node) = node.get("test") {
+            write_node_with_parens_maybe(printer, stream, factory, test_node);
+        }
+        write_space(printer, stream);
+        write_token(printer, stream, "else");
+        write_space(printer, stream);
+        if let Some(orelse_node) = node.get("orelse") {
+            write_node_with_parens_maybe(printer, stream, factory, orelse_node);
+        }
+    }
+}
+
 struct BreakPrinter {}
 
 impl NodePrinter<VyperAST> for BreakPrinter {
@@ -1681,6 +1709,7 @@ impl NodePrinterFactory<VyperAST> for VyperNodePrinterFactory {
                 "For" => Box::new(ForPrinter {}),
                 "List" => Box::new(ListPrinter {}),
                 "If" => Box::new(IfPrinter {}),
+                "IfExp" => Box::new(IfExpPrinter {}),
                 "Break" => Box::new(BreakPrinter {}),
                 "Continue" => Box::new(ContinuePrinter {}),
                 "Pass" => Box::new(PassPrinter {}),
-- 
2.43.0


From cf7b1927e025af7df1a0fb80cb3e609bbd615c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:59 +0000
Subject: [PATCH 45/73] fix: print Vyper implements declarations

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index edfae5b..e982cfd 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -1348,6 +1348,24 @@ impl NodePrinter<VyperAST> for ImportPrinter {
     }
 }
 
+struct ImplementsDeclPrinter {}
+
+impl NodePrinter<VyperAST> for ImplementsDeclPrinter {
+    fn print_node(
+        &mut self,
+        printer: &mut PrettyPrinter,
+        stream: &mut dyn Write,
+        factory: &dyn NodePrinterFactory<VyperAST>,
+        node: &VyperAST,
+    ) {
+        write_token(printer, stream, "implements:");
+        write_space(printer, stream);
+        if let Some(annotation_node) = node.get("annotation") {
+            traverse_sub_node_and_print(printer, stream, factory, annotation_node);
+        }
+    }
+}
+
 struct ImportFromPrinter {}
 
 impl NodePrinter<VyperAST> for ImportFromPrinter {
@@ -1717,6 +1735,7 @@ impl NodePrinterFactory<VyperAST> for VyperNodePrinterFactory {
                 "Raise" => Box::new(RaisePrinter {}),
                 "Import" => Box::new(ImportPrinter {}),
                 "ImportFrom" => Box::new(ImportFromPrinter {}),
+                "ImplementsDecl" => Box::new(ImplementsDeclPrinter {}),
                 "EventDef" => Box::new(EventDefPrinter {}),
                 "Log" => Box::new(LogPrinter {}),
                 "Comment" => Box::new(CommentPrinter {}),
-- 
2.43.0


From e6358f8eb001955b53c5b3d1db88beeb3ae6ea6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:59 +0000
Subject: [PATCH 46/73] fix: keep the grouping of all operands of Vyper
 expressions

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index e982cfd..02827d0 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -198,8 +198,8 @@ fn write_indented_array(
     }
 }
 
-/// Write the contents of the node and wrap the contents in parentheses if the node is a BinOp,
-/// Compare, or BoolOp.
+/// Write the contents of the node and wrap the contents in parentheses if the node is an operation
+/// or a negative number.
 ///
 /// # Arguments
 ///
@@ -215,7 +215,11 @@ fn write_node_with_parens_maybe(
     node: &VyperAST,
 ) {
     if let Some(ast_type) = node.get_str_for_key("ast_type") {
-        let needs_parens = ast_type == "BinOp" || ast_type == "Compare" || ast_type == "BoolOp";
+        let needs_parens = match ast_type {
+            "BinOp" | "Compare" | "BoolOp" | "UnaryOp" | "IfExp" | "Tuple" => true,
+            "Int" | "Decimal" => pretty_print_node(node, factory).starts_with('-'),
+            _ => false,
+        };
 
         if needs_parens {
             write_token(printer, stream, "(");
@@ -389,7 +393,7 @@ impl NodePrinter<VyperAST> for SubscriptPrinter {
         node: &VyperAST,
     ) {
         if let Some(value_node) = node.get("value") {
-            traverse_sub_node_and_print(printer, stream, factory, value_node);
+            write_node_with_parens_maybe(printer, stream, factory, value_node);
         }
 
         if let Some(slice_node) = node.get("slice") {
@@ -661,7 +665,7 @@ impl NodePrinter<VyperAST> for AttributePrinter {
         node: &VyperAST,
     ) {
         if let Some(value_node) = node.get("value") {
-            traverse_sub_node_and_print(printer, stream, factory, value_node);
+            write_node_with_parens_maybe(printer, stream, factory, value_node);
         }
         write_token(printer, stream, ".");
         if let Some(attribute_str) = node.get_str_for_key("attr") {
@@ -967,7 +971,7 @@ impl NodePrinter<VyperAST> for CallPrinter {
         node: &VyperAST,
     ) {
         if let Some(func_node) = node.get("func") {
-            traverse_sub_node_and_print(printer, stream, factory, func_node);
+            write_node_with_parens_maybe(printer, stream, factory, func_node);
         }
         write_token(printer, stream, "(");
         write_args_as_array(printer, stream, factory, node);
-- 
2.43.0


From 070d7f7241b95b5d7b7c6af617d87b43fb873234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:37 +0000
Subject: [PATCH 47/73] fix: put Vyper tuples inside of other expressions in
 parentheses

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 29 ++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index 02827d0..69e844c 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -51,7 +51,9 @@ fn write_elements_array(
 ) {
     if let Some(elements_node) = node.get("elements") {
         if let Some(elements_array) = elements_node.as_array() {
-            print_array_helper(printer, stream, factory, elements_array);
+            // A tuple inside of other elements needs parentheses.
+            let sub_factory = factory_with_tuple_parentheses(factory);
+            print_array_helper(printer, stream, &sub_factory, elements_array);
         }
     }
 }
@@ -80,6 +82,22 @@ fn write_key_of_node_as_array(
     }
 }
 
+/// Return a copy of `factory` that puts tuples in parentheses.
+///
+/// # Arguments
+///
+/// * `factory` - The [`NodePrinterFactory<AST>`] object to copy.
+fn factory_with_tuple_parentheses(
+    factory: &dyn NodePrinterFactory<VyperAST>,
+) -> VyperNodePrinterFactory {
+    let mut printer_settings = factory.get_settings().clone();
+    printer_settings.set_value_for_key(
+        TUPLES_SHOULD_USE_PARENTHESES,
+        PreferenceValue::Boolean(true),
+    );
+    VyperNodePrinterFactory::new(printer_settings)
+}
+
 /// Write the value of the array contained in the 'args' key.
 ///
 /// # Arguments
@@ -594,6 +612,7 @@ impl NodePrinter<VyperAST> for ArgumentsPrinter {
                             if i >= first_default_index {
                                 let default_index = i - first_default_index;
                                 let default_node = defaults_array.get(default_index).unwrap();
+                                let factory = &factory_with_tuple_parentheses(factory);
                                 write_token(printer, stream, "=");
                                 traverse_sub_node_and_print(printer, stream, factory, default_node);
                             }
@@ -628,7 +647,8 @@ impl NodePrinter<VyperAST> for ArgPrinter {
             if !annotation_node.is_null() {
                 write_token(printer, stream, ":");
                 write_space(printer, stream);
-                traverse_sub_node_and_print(printer, stream, factory, annotation_node);
+                let sub_factory = factory_with_tuple_parentheses(factory);
+                traverse_sub_node_and_print(printer, stream, &sub_factory, annotation_node);
             }
         }
     }
@@ -938,7 +958,8 @@ impl NodePrinter<VyperAST> for AnnAssignPrinter {
         if let Some(annotation_node) = node.get("annotation") {
             write_token(printer, stream, ":");
             write_space(printer, stream);
-            traverse_sub_node_and_print(printer, stream, factory, annotation_node);
+            let sub_factory = factory_with_tuple_parentheses(factory);
+            traverse_sub_node_and_print(printer, stream, &sub_factory, annotation_node);
         }
         write_value_assignment(printer, stream, factory, node);
     }
@@ -970,6 +991,7 @@ impl NodePrinter<VyperAST> for CallPrinter {
         factory: &dyn NodePrinterFactory<VyperAST>,
         node: &VyperAST,
     ) {
+        let factory = &factory_with_tuple_parentheses(factory);
         if let Some(func_node) = node.get("func") {
             write_node_with_parens_maybe(printer, stream, factory, func_node);
         }
@@ -1587,6 +1609,7 @@ impl NodePrinter<VyperAST> for DictPrinter {
                                 let key = keys_array.get(i).unwrap();
                                 let value = values_array.get(i).unwrap();
 
+                                let factory = &factory_with_tuple_parentheses(factory);
                                 write_indent(printer, stream);
                                 traverse_sub_node_and_print(printer, stream, factory, key);
                                 write_token(printer, stream, ":");
-- 
2.43.0


From 35c5b026be637dbcb86676708e6c698b33a45beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:37 +0000
Subject: [PATCH 48/73] fix: require two statements other than returns for
 SwapLines in Vyper

---
 mutagenyx_lib/src/vyper/mutators.rs | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/mutators.rs b/mutagenyx_lib/src/vyper/mutators.rs
index 4a4083b..eeeffce 100644
--- a/mutagenyx_lib/src/vyper/mutators.rs
+++ b/mutagenyx_lib/src/vyper/mutators.rs
@@ -1590,25 +1590,13 @@ impl Mutator<VyperAST> for SwapLinesMutator {
             if ast_type == "FunctionDef" || ast_type == "For" || ast_type == "If" {
                 if let Some(body_node) = node.get(&self.key) {
                     if let Some(body_array) = body_node.as_array() {
-                        if body_array.len() >= 2 {
-                            let mut found_return_statement = false;
-                            for value in body_array {
-                                if let Some(value_ast_type) = value.get_str_for_key("ast_type") {
-                                    if value_ast_type == "Return" {
-                                        found_return_statement = true;
-                                        break;
-                                    }
-                                }
-                            }
-
-                            // If the body of the function def has a return statement, then there
-                            // must be at least 3 statements in the body in order to swap (but not
-                            // swap a return statement) statements.  If there are no return statements
-                            // then we can just go ahead and swap.
-                            if !found_return_statement || body_array.len() >= 3 {
-                                return true;
-                            }
-                        }
+                        // The body needs at least two statements other than return
+                        // statements in order to swap two of them.
+                        let swappable_statements = body_array
+                            .iter()
+                            .filter(|value| value.get_str_for_key("ast_type") != Some("Return"))
+                            .count();
+                        return swappable_statements >= 2;
                     }
                 }
             }
-- 
2.43.0


From a63c949de70de323e9bbabdab8476f2cc4844d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:37 +0000
Subject: [PATCH 49/73] fix: recognize that swapping two lines in either order
 is the same Vyper mutant

---
 mutagenyx_lib/src/vyper/mutators.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/mutators.rs b/mutagenyx_lib/src/vyper/mutators.rs
index eeeffce..8bfcedd 100644
--- a/mutagenyx_lib/src/vyper/mutators.rs
+++ b/mutagenyx_lib/src/vyper/mutators.rs
@@ -1637,8 +1637,6 @@ impl Mutator<VyperAST> for SwapLinesMutator {
                     break;
                 }
 
-                hasher.update(&first_index.to_ne_bytes())?;
-
                 // Try to randomly pick a second node.
                 let mut second_index: usize;
                 loop {
@@ -1654,8 +1652,6 @@ impl Mutator<VyperAST> for SwapLinesMutator {
                     break;
                 }
 
-                hasher.update(&second_index.to_ne_bytes())?;
-
                 let larger_index = if first_index >= second_index {
                     first_index
                 } else {
@@ -1668,6 +1664,10 @@ impl Mutator<VyperAST> for SwapLinesMutator {
                     first_index
                 };
 
+                // Swapping the same two lines is the same mutation in either order.
+                hasher.update(&smaller_index.to_ne_bytes())?;
+                hasher.update(&larger_index.to_ne_bytes())?;
+
                 let larger_node = body_array.remove(larger_index);
                 let smaller_node = body_array.remove(smaller_index);
                 body_array.insert(smaller_index, larger_node.clone());
-- 
2.43.0


From 3e41a806346af3d471d349c5635e24e1ae79d530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:37 +0000
Subject: [PATCH 50/73] fix: recognize that swapping two arguments in either
 order is the same Vyper mutant

---
 mutagenyx_lib/src/vyper/mutators.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/mutators.rs b/mutagenyx_lib/src/vyper/mutators.rs
index 8bfcedd..785e211 100644
--- a/mutagenyx_lib/src/vyper/mutators.rs
+++ b/mutagenyx_lib/src/vyper/mutators.rs
@@ -1134,14 +1134,14 @@ impl Mutator<VyperAST> for SwapFunctionArgumentsMutator {
                         let mut random_index2 =
                             (rand.next_u64() % args_array.len() as u64) as usize;
 
-                        hasher.update(&random_index1.to_ne_bytes())?;
-
                         // The indexes may be the same, so just iterate until we get a different index.
                         while random_index1 == random_index2 {
                             random_index2 = (rand.next_u64() % args_array.len() as u64) as usize;
                         }
 
-                        hasher.update(&random_index2.to_ne_bytes())?;
+                        // Swapping the same two arguments is the same mutation in either order.
+                        hasher.update(&random_index1.min(random_index2).to_ne_bytes())?;
+                        hasher.update(&random_index1.max(random_index2).to_ne_bytes())?;
 
                         let arg1 = args_array[random_index1].clone();
                         let arg2 = args_array[random_index2].clone();
-- 
2.43.0


From 076f51f3eb721ac9192661c94004850ec2855710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:37 +0000
Subject: [PATCH 51/73] fix: do not delete the mutability of pure interface
 functions in Vyper

---
 mutagenyx_lib/src/vyper/mutators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/vyper/mutators.rs b/mutagenyx_lib/src/vyper/mutators.rs
index 785e211..1cf3bf9 100644
--- a/mutagenyx_lib/src/vyper/mutators.rs
+++ b/mutagenyx_lib/src/vyper/mutators.rs
@@ -642,7 +642,7 @@ impl DeleteStatementMutator {
     pub fn new() -> DeleteStatementMutator {
         DeleteStatementMutator {
             comment_node: None,
-            single_line_statements_to_avoid: vec!["view", "nonpayable", "payable"],
+            single_line_statements_to_avoid: vec!["pure", "view", "nonpayable", "payable"],
         }
     }
 }
-- 
2.43.0


From ce35d34c58c023ef80250ebb5574e994e1defb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:59 +0000
Subject: [PATCH 52/73] fix: keep the body of a Vyper function with any return
 type from being empty

---
 mutagenyx_lib/src/vyper/mutators.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/mutators.rs b/mutagenyx_lib/src/vyper/mutators.rs
index 1cf3bf9..f1c2ecb 100644
--- a/mutagenyx_lib/src/vyper/mutators.rs
+++ b/mutagenyx_lib/src/vyper/mutators.rs
@@ -726,7 +726,7 @@ impl Mutator<VyperAST> for DeleteStatementMutator {
                         if let Some(ast_type_str) = returns_node.get_str_for_key("ast_type") {
                             if ast_type_str == "Name" {
                                 if let Some(id_str) = returns_node.get_str_for_key("id") {
-                                    match &id_str[..3] {
+                                    match id_str.get(..3).unwrap_or(id_str) {
                                         "boo" => {
                                             let random_boolean = rand.next_u64() % 2_u64;
                                             let actual_boolean = matches!(random_boolean, 1);
@@ -848,10 +848,10 @@ impl Mutator<VyperAST> for DeleteStatementMutator {
 
                                             body_array.push(return_node);
                                         }
-                                        unrecognized_type => {
-                                            return Err(MutagenyxError::UnrecognizedLanguageType(
-                                                String::from(unrecognized_type),
-                                            ))
+                                        _ => {
+                                            // We do not have a value for the type, just keep the
+                                            // body from being empty.
+                                            body_array.push(new_pass_node()?);
                                         }
                                     }
                                 }
@@ -895,6 +895,8 @@ impl Mutator<VyperAST> for DeleteStatementMutator {
                                         body_array.push(return_node);
                                     }
                                 }
+                            } else {
+                                body_array.push(new_pass_node()?);
                             }
                         } else {
                             let new_node = match new_pass_node() {
-- 
2.43.0


From a5e90fc3a2dab90f2b74cc4b1c176e575d4272d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:59 +0000
Subject: [PATCH 53/73] fix: let Integer change all Vyper integers in the range
 of JSON integers

---
 mutagenyx_lib/src/vyper/mutators.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/mutators.rs b/mutagenyx_lib/src/vyper/mutators.rs
index f1c2ecb..f60bc59 100644
--- a/mutagenyx_lib/src/vyper/mutators.rs
+++ b/mutagenyx_lib/src/vyper/mutators.rs
@@ -1337,6 +1337,27 @@ impl Mutator<VyperAST> for IfStatementMutator {
     }
 }
 
+/// Return the JSON number that is `offset` away from the integer in `value`.
+///
+/// # Arguments
+///
+/// * `value` - The JSON number.
+/// * `offset` - The number to add to `value`.
+fn integer_plus(value: &VyperAST, offset: i128) -> Option<VyperAST> {
+    let number = match value.as_i64() {
+        Some(number) => number as i128,
+        None => value.as_u64()? as i128,
+    } + offset;
+    // JSON numbers hold integers from i64::MIN to u64::MAX, step to the other side at the ends.
+    if let Ok(number) = i64::try_from(number) {
+        Some(json![number])
+    } else if let Ok(number) = u64::try_from(number) {
+        Some(json![number])
+    } else {
+        integer_plus(value, -offset)
+    }
+}
+
 /// Implement the Integer mutation algorithm:
 ///
 /// Randomly selects one from the following:
@@ -1386,9 +1407,7 @@ impl Mutator<VyperAST> for IntegerMutator {
 
                 // Add one to the integer constant.
                 if let Some(value_node) = node.get("value") {
-                    if let Some(mut value) = value_node.as_i64() {
-                        value += 1;
-                        let json_value = json![value];
+                    if let Some(json_value) = integer_plus(value_node, 1) {
                         node.set_node_for_key("value", json_value);
                     }
                 }
@@ -1398,9 +1417,7 @@ impl Mutator<VyperAST> for IntegerMutator {
 
                 // Subtract one from the integer constant.
                 if let Some(value_node) = node.get("value") {
-                    if let Some(mut value) = value_node.as_i64() {
-                        value -= 1;
-                        let json_value = json![value];
+                    if let Some(json_value) = integer_plus(value_node, -1) {
                         node.set_node_for_key("value", json_value);
                     }
                 }
-- 
2.43.0


From 0e5b2898fa3fa3768f297dbef207aa0b1cb17c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:59 +0000
Subject: [PATCH 54/73] fix: write random Vyper decimals with a decimal point

---
 mutagenyx_lib/src/vyper/mutators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/vyper/mutators.rs b/mutagenyx_lib/src/vyper/mutators.rs
index f60bc59..14c7b09 100644
--- a/mutagenyx_lib/src/vyper/mutators.rs
+++ b/mutagenyx_lib/src/vyper/mutators.rs
@@ -51,7 +51,7 @@ fn new_float_constant_node<F: Float + fmt::Display>(value: F) -> Result<VyperAST
         "{{\
             \"node_id\": 9999998,
             \"ast_type\": \"Decimal\",
-            \"value\": \"{value}\"
+            \"value\": \"{value:.10}\"
         }}"
     );
     new_json_node(&node_str)
-- 
2.43.0


From b93a389419350ea23faea66b21456e95cc0e2827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:21 +0000
Subject: [PATCH 55/73] fix: put tuples in the tests of Vyper if and assert
 statements in parentheses

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index 69e844c..1d90c77 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -849,6 +849,7 @@ impl NodePrinter<VyperAST> for AssertPrinter {
         factory: &dyn NodePrinterFactory<VyperAST>,
         node: &VyperAST,
     ) {
+        let factory = &factory_with_tuple_parentheses(factory);
         write_token(printer, stream, "assert");
         write_space(printer, stream);
         if let Some(test_node) = node.get("test") {
@@ -1219,7 +1220,8 @@ impl NodePrinter<VyperAST> for IfPrinter {
         write_token(printer, stream, "if");
         write_space(printer, stream);
         if let Some(test_node) = node.get("test") {
-            traverse_sub_node_and_print(printer, stream, factory, test_node);
+            let sub_factory = factory_with_tuple_parentheses(factory);
+            traverse_sub_node_and_print(printer, stream, &sub_factory, test_node);
         }
         write_token(printer, stream, ":");
         write_newline(printer, stream);
-- 
2.43.0


From 711c205d36f53cbda0cb60bf991ce69823a980a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:48 +0000
Subject: [PATCH 56/73] fix: keep preferences with a / in their key apart from
 nested preferences

---
 mutagenyx_lib/src/preferences.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/mutagenyx_lib/src/preferences.rs b/mutagenyx_lib/src/preferences.rs
index d1018e7..87767e3 100644
--- a/mutagenyx_lib/src/preferences.rs
+++ b/mutagenyx_lib/src/preferences.rs
@@ -3,8 +3,10 @@
 use crate::error::MutagenyxError;
 use crate::json::*;
 #[cfg(test)]
+use serde_json::from_str;
+#[cfg(test)]
 use serde_json::json;
-use serde_json::{from_str, Map, Value};
+use serde_json::{Map, Value};
 use std::collections::HashMap;
 use std::convert::TryFrom;
 
@@ -64,12 +66,12 @@ impl TryFrom<PreferenceValue> for Value {
             PreferenceValue::String(s) => Ok(Value::String(s)),
             PreferenceValue::Boolean(b) => Ok(Value::from(b)),
             PreferenceValue::Map(o) => {
-                let mut jobject: Value = from_str("{}").unwrap();
+                let mut map: Map<String, Value> = Map::new();
                 for (k, v) in o {
                     let jvalue = Value::try_from(v)?;
-                    jobject.set_node_for_key(k.as_str(), jvalue);
+                    map.insert(k, jvalue);
                 }
-                Ok(jobject)
+                Ok(Value::Object(map))
             }
             PreferenceValue::Array(a) => {
                 let mut jarray: Value = Value::Array(vec![]);
@@ -364,13 +366,12 @@ impl TryFrom<Preferences> for Value {
     type Error = MutagenyxError;
 
     fn try_from(value: Preferences) -> Result<Self, Self::Error> {
-        let map: Map<String, Value> = Map::new();
-        let mut jvalue = Value::Object(map);
-        for (key, value) in &value.map {
-            let jsub_value = Value::try_from(value.clone())?;
-            jvalue.set_node_for_key(key.as_str(), jsub_value);
+        let mut map: Map<String, Value> = Map::new();
+        for (key, value) in value.map {
+            let jsub_value = Value::try_from(value)?;
+            map.insert(key, jsub_value);
         }
-        Ok(jvalue)
+        Ok(Value::Object(map))
     }
 }
 
-- 
2.43.0


From e340278ea4adf2eceaf763212c1474f50787e418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:17 +0000
Subject: [PATCH 57/73] fix: pretty-print every file to stdout, not only the
 first

---
 mutagenyx/src/pretty_printing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutagenyx/src/pretty_printing.rs b/mutagenyx/src/pretty_printing.rs
index 7de8a2e..d75ce45 100644
--- a/mutagenyx/src/pretty_printing.rs
+++ b/mutagenyx/src/pretty_printing.rs
@@ -45,7 +45,7 @@ pub fn pretty_print_files(args: PrettyPrintCLArgs) {
         if args.stdout {
             let mut stdout = std::io::stdout();
             match pretty_print_file_to_stream(&file_name, &mut stdout, &mut preferences) {
-                Ok(_) => return,
+                Ok(_) => (),
                 Err(e) => println!("Unable to pretty-print {}: {}", file_name, e),
             }
         } else {
-- 
2.43.0


From d394dcfeb88d928aa50972ad6518a6488b4dcfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:17 +0000
Subject: [PATCH 58/73] fix: keep the seed of a configuration file to that file

---
 mutagenyx/src/mutation_generator.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mutagenyx/src/mutation_generator.rs b/mutagenyx/src/mutation_generator.rs
index cf68305..609b95a 100644
--- a/mutagenyx/src/mutation_generator.rs
+++ b/mutagenyx/src/mutation_generator.rs
@@ -113,7 +113,7 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
 
     // Select a random number generator seed based on args.rng_seed. If args.rng_seed is less
     // than 0, then use a seed based off of time (we don't need cryptographic randomness).
-    let mut seed: u64 = if args.rng_seed < 0 {
+    let seed: u64 = if args.rng_seed < 0 {
         let start = SystemTime::now();
         let since_the_epoch = start.duration_since(UNIX_EPOCH);
         match since_the_epoch {
@@ -137,6 +137,7 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
         let mut actual_output_directory = PathBuf::from_str(&args.output_directory).unwrap();
         let mut actual_use_stdout = args.stdout;
         let mut actual_print_original = args.print_original;
+        let mut actual_seed = seed;
 
         // Try to recognize the language of the source file.  The file might be a source code file,
         // an AST file, or a configuration file.
@@ -164,7 +165,7 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
             // Here we update the random number generator from the configuration details seed if the
             // details have a new seed.
             if let Some(s) = configuration_details.seed {
-                seed = s;
+                actual_seed = s;
             };
 
             // Check to see if the configuration file requested a different set of mutation algorithms.
@@ -199,8 +200,8 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
                 let generator_params = GeneratorParameters {
                     file_name: file_to_mutate_name,
                     number_of_mutants: actual_number_of_mutants,
-                    rng_seed: seed,
-                    rng: Pcg64::seed_from_u64(seed),
+                    rng_seed: actual_seed,
+                    rng: Pcg64::seed_from_u64(actual_seed),
                     output_directory: actual_output_directory.clone(),
                     use_stdout: actual_use_stdout,
                     mutations: actual_mutations.clone(),
@@ -217,7 +218,7 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
             let generator_params = GeneratorParameters {
                 file_name: actual_file_name,
                 number_of_mutants: actual_number_of_mutants,
-                rng_seed: seed,
+                rng_seed: actual_seed,
                 rng: pcg.clone(),
                 output_directory: actual_output_directory,
                 use_stdout: actual_use_stdout,
-- 
2.43.0


From e62d404c48c4f394c0d30e7e095bb55027078933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:17 +0000
Subject: [PATCH 59/73] fix: pass the Solidity allow paths as one
 comma-separated list

---
 .../src/solidity/language_interface.rs        | 21 ++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/language_interface.rs b/mutagenyx_lib/src/solidity/language_interface.rs
index 55dea05..b1f4004 100644
--- a/mutagenyx_lib/src/solidity/language_interface.rs
+++ b/mutagenyx_lib/src/solidity/language_interface.rs
@@ -191,19 +191,16 @@ fn get_solidity_compiler_flags_from_preferences(prefs: &Preferences) -> Vec<Stri
             }
             if let Some(allow_paths_array) = compiler_prefs.get_array_for_key(ALLOW_PATHS_KEY) {
                 if !allow_paths_array.is_empty() {
+                    // The compiler takes the paths as one comma-separated list.
+                    let paths: Vec<String> = allow_paths_array
+                        .iter()
+                        .filter_map(|value| match value {
+                            PreferenceValue::String(s) => Some(s.clone()),
+                            _ => None,
+                        })
+                        .collect();
                     args.push(String::from("--allow-paths"));
-                    let mut i: usize = 0;
-                    while i < allow_paths_array.len() {
-                        let value = &allow_paths_array[i];
-                        if let PreferenceValue::String(s) = value {
-                            let mut path_value = s.clone();
-                            if i < (allow_paths_array.len() - 1) {
-                                path_value += ",";
-                            }
-                            args.push(path_value);
-                        }
-                        i += 1;
-                    }
+                    args.push(paths.join(","));
                 }
             }
             if let Some(remappings_array) = compiler_prefs.get_array_for_key(REMAPPINGS_KEY) {
-- 
2.43.0


From 4df2d01dc305ab2f77f000fe2ff05d324e9826cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:17 +0000
Subject: [PATCH 60/73] fix: read seeds larger than the largest signed integer
 from configuration files

---
 mutagenyx_lib/src/config_file.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mutagenyx_lib/src/config_file.rs b/mutagenyx_lib/src/config_file.rs
index 072d8b3..d980eec 100644
--- a/mutagenyx_lib/src/config_file.rs
+++ b/mutagenyx_lib/src/config_file.rs
@@ -168,8 +168,8 @@ impl ConfigurationFileDetails {
                 details.number_of_mutants = number_of_mutants;
             }
 
-            if let Some(seed) = json_value.get_int_for_key(SEED_KEY) {
-                details.seed = Some(seed as u64);
+            if let Some(seed) = json_value.get(SEED_KEY) {
+                details.seed = seed.as_u64().or(seed.as_i64().map(|s| s as u64));
             }
 
             if let Some(mutations_array) = json_value.get_array_for_key(MUTATIONS_KEY) {
-- 
2.43.0


From 987d2ae92cb8be2827c30faa9fc8dd64838f13cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:17 +0000
Subject: [PATCH 61/73] fix: report a configuration file language that is not a
 string instead of crashing

---
 mutagenyx_lib/src/config_file.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/config_file.rs b/mutagenyx_lib/src/config_file.rs
index d980eec..80801bd 100644
--- a/mutagenyx_lib/src/config_file.rs
+++ b/mutagenyx_lib/src/config_file.rs
@@ -142,7 +142,15 @@ impl ConfigurationFileDetails {
                 ));
             }
 
-            let language_str = json_value.get_str_for_key(LANGUAGE_KEY).unwrap();
+            let language_str = match json_value.get_str_for_key(LANGUAGE_KEY) {
+                Some(s) => s,
+                None => {
+                    return Err(MutagenyxError::ConfigFileUnsupportedLanguage(
+                        String::from(config_file),
+                        json_value[LANGUAGE_KEY].to_string(),
+                    ))
+                }
+            };
 
             let language = match Language::from_str(language_str) {
                 Ok(l) => l,
-- 
2.43.0


From 5923c0284199530fc96243534e9d4a497ce09d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:07 +0000
Subject: [PATCH 62/73] fix: report a Vyper compiler without a usable version
 number instead of crashing

---
 mutagenyx_lib/src/vyper/language_interface.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/language_interface.rs b/mutagenyx_lib/src/vyper/language_interface.rs
index c8241fe..ea2d51f 100644
--- a/mutagenyx_lib/src/vyper/language_interface.rs
+++ b/mutagenyx_lib/src/vyper/language_interface.rs
@@ -219,10 +219,10 @@ fn get_vyper_compiler_version(compiler: &str) -> Result<Versioning, MutagenyxErr
     {
         Ok(output) => {
             if output.status.success() {
-                let output_version = core::str::from_utf8(output.stdout.as_slice()).unwrap();
+                let output_version = String::from_utf8_lossy(output.stdout.as_slice());
 
                 // Clip off the newline character.  The Mess code dislikes the newline.
-                let output_version = &output_version[..output_version.len() - 1];
+                let output_version = output_version.trim();
 
                 // We use Mess here because the compiler may output some non-semantic versioned string
                 // like `0.2.11+commit.5db35ef` for a compiler version.  Mess gives us a shot at recovering
@@ -242,7 +242,14 @@ fn get_vyper_compiler_version(compiler: &str) -> Result<Versioning, MutagenyxErr
                         if let Some(value) = v.nth(2) {
                             vstr += &(value).to_string();
                         }
-                        Versioning::new(&vstr).unwrap()
+                        match Versioning::new(&vstr) {
+                            Some(version) => version,
+                            None => {
+                                return Err(MutagenyxError::CompilerNoVersion(String::from(
+                                    compiler,
+                                )))
+                            }
+                        }
                     }
                     None => return Err(MutagenyxError::CompilerNoVersion(String::from(compiler))),
                 }
-- 
2.43.0


From 89d1b97abc9e12d33e886439bfb94787dc54041f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:07 +0000
Subject: [PATCH 63/73] fix: accept compiler output that is not valid UTF-8

---
 mutagenyx_lib/src/solidity/language_interface.rs |  8 ++++----
 mutagenyx_lib/src/vyper/language_interface.rs    | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/language_interface.rs b/mutagenyx_lib/src/solidity/language_interface.rs
index b1f4004..70dec6d 100644
--- a/mutagenyx_lib/src/solidity/language_interface.rs
+++ b/mutagenyx_lib/src/solidity/language_interface.rs
@@ -279,8 +279,8 @@ fn file_is_source_file(file_name: &str, prefs: &Preferences) -> Result<String, M
             if output.status.success() {
                 Ok(out_path)
             } else {
-                let stdout_contents = core::str::from_utf8(output.stdout.as_slice()).unwrap();
-                let stderr_contents = core::str::from_utf8(output.stderr.as_slice()).unwrap();
+                let stdout_contents = String::from_utf8_lossy(output.stdout.as_slice());
+                let stderr_contents = String::from_utf8_lossy(output.stderr.as_slice());
                 log::debug!(
                     "Compilation failed:\n\tstdout: {}\n\tstderr: {}",
                     stdout_contents,
@@ -346,8 +346,8 @@ fn invoke_compiler(file_name: &str, compiler: &str, args: &Vec<String>) -> bool
     match shell_execute(compiler, compiler_args) {
         Ok(output) => {
             if !output.status.success() {
-                let stdout_contents = core::str::from_utf8(output.stdout.as_slice()).unwrap();
-                let stderr_contents = core::str::from_utf8(output.stderr.as_slice()).unwrap();
+                let stdout_contents = String::from_utf8_lossy(output.stdout.as_slice());
+                let stderr_contents = String::from_utf8_lossy(output.stderr.as_slice());
                 log::debug!(
                     "Compilation failed:\n\tstdout: {}\n\tstderr: {}",
                     stdout_contents,
diff --git a/mutagenyx_lib/src/vyper/language_interface.rs b/mutagenyx_lib/src/vyper/language_interface.rs
index ea2d51f..f3fe084 100644
--- a/mutagenyx_lib/src/vyper/language_interface.rs
+++ b/mutagenyx_lib/src/vyper/language_interface.rs
@@ -254,7 +254,7 @@ fn get_vyper_compiler_version(compiler: &str) -> Result<Versioning, MutagenyxErr
                     None => return Err(MutagenyxError::CompilerNoVersion(String::from(compiler))),
                 }
             } else {
-                let command_error = core::str::from_utf8(output.stderr.as_slice()).unwrap();
+                let command_error = String::from_utf8_lossy(output.stderr.as_slice());
                 log::error!("Unable to retrieve compiler version: {}", command_error);
                 return Err(MutagenyxError::CompilerNoVersion(String::from(compiler)));
             }
@@ -335,7 +335,7 @@ fn file_is_source_file_with_vyper_from_pip(
                 if post_process_compiler_output_to_file {
                     // The compiler did not support the -o flag to output the AST to a file.  So,
                     // we get the output from stdout and write that to the output file.
-                    let ast_contents = core::str::from_utf8(output.stdout.as_slice()).unwrap();
+                    let ast_contents = String::from_utf8_lossy(output.stdout.as_slice());
                     let mut file = std::fs::File::create(full_path_to_tmp_file.to_str().unwrap())?;
                     write!(file, "{ast_contents}")?;
                 }
@@ -433,8 +433,8 @@ fn file_compiles_with_pip(file_name: &str, prefs: &Preferences) -> bool {
     match shell_execute(&vyper_compiler, full_compiler_args) {
         Ok(output) => {
             if !output.status.success() {
-                let stdout_contents = core::str::from_utf8(output.stdout.as_slice()).unwrap();
-                let stderr_contents = core::str::from_utf8(output.stderr.as_slice()).unwrap();
+                let stdout_contents = String::from_utf8_lossy(output.stdout.as_slice());
+                let stderr_contents = String::from_utf8_lossy(output.stderr.as_slice());
                 log::debug!(
                     "Compilation failed:\n\tstdout: {}\n\tstderr: {}",
                     stdout_contents,
@@ -480,8 +480,8 @@ fn file_compiles_with_docker(file_name: &str, prefs: &Preferences) -> bool {
     match shell_execute("docker", args) {
         Ok(output) => {
             if !output.status.success() {
-                let stdout_contents = core::str::from_utf8(output.stdout.as_slice()).unwrap();
-                let stderr_contents = core::str::from_utf8(output.stderr.as_slice()).unwrap();
+                let stdout_contents = String::from_utf8_lossy(output.stdout.as_slice());
+                let stderr_contents = String::from_utf8_lossy(output.stderr.as_slice());
                 log::debug!(
                     "Compilation failed:\n\tstdout: {}\n\tstderr: {}",
                     stdout_contents,
-- 
2.43.0


From 6a781df916cb5dafa4216b226dc220efb2de0c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:07 +0000
Subject: [PATCH 64/73] fix: report input paths that do not name a file instead
 of crashing

---
 mutagenyx/src/pretty_printing.rs               |  4 +++-
 .../src/solidity/language_interface.rs         |  9 ++++++++-
 mutagenyx_lib/src/vyper/language_interface.rs  | 18 ++++++++++++++++--
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/mutagenyx/src/pretty_printing.rs b/mutagenyx/src/pretty_printing.rs
index d75ce45..13a659d 100644
--- a/mutagenyx/src/pretty_printing.rs
+++ b/mutagenyx/src/pretty_printing.rs
@@ -50,7 +50,9 @@ pub fn pretty_print_files(args: PrettyPrintCLArgs) {
             }
         } else {
             let original_file = PathBuf::from_str(&file_name).unwrap();
-            let original_file_str = original_file.file_name().unwrap();
+            let original_file_str = original_file
+                .file_name()
+                .unwrap_or(original_file.as_os_str());
             match pretty_print_file(&file_name, &args.output_directory, &mut preferences) {
                 Ok(_buf) => log::info!(
                     "Pretty-printing original file {:?} to {}",
diff --git a/mutagenyx_lib/src/solidity/language_interface.rs b/mutagenyx_lib/src/solidity/language_interface.rs
index 70dec6d..9dde86e 100644
--- a/mutagenyx_lib/src/solidity/language_interface.rs
+++ b/mutagenyx_lib/src/solidity/language_interface.rs
@@ -248,7 +248,14 @@ fn get_solidity_compiler_from_preferences(prefs: &Preferences) -> String {
 /// * `prefs` - The [`Preferences`] object that may contain a value for `solidity_compiler`.
 fn file_is_source_file(file_name: &str, prefs: &Preferences) -> Result<String, MutagenyxError> {
     let file_path = PathBuf::from_str(file_name).unwrap();
-    let base_name = file_path.file_name().unwrap().to_str().unwrap();
+    let base_name = match file_path.file_name() {
+        Some(name) => name.to_str().unwrap(),
+        None => {
+            return Err(MutagenyxError::SourceDoesNotCompile(String::from(
+                file_name,
+            )))
+        }
+    };
     let tmp_dir = env::temp_dir();
     let separator = String::from(std::path::MAIN_SEPARATOR);
     let out_path =
diff --git a/mutagenyx_lib/src/vyper/language_interface.rs b/mutagenyx_lib/src/vyper/language_interface.rs
index f3fe084..0d8ad36 100644
--- a/mutagenyx_lib/src/vyper/language_interface.rs
+++ b/mutagenyx_lib/src/vyper/language_interface.rs
@@ -286,7 +286,14 @@ fn file_is_source_file_with_vyper_from_pip(
     // * If successful, returns the file name of the AST.
 
     let file_path = PathBuf::from_str(file_name).unwrap();
-    let base_name = file_path.file_name().unwrap().to_str().unwrap();
+    let base_name = match file_path.file_name() {
+        Some(name) => name.to_str().unwrap(),
+        None => {
+            return Err(MutagenyxError::SourceDoesNotCompile(String::from(
+                file_name,
+            )))
+        }
+    };
     let tmp_dir = env::temp_dir();
     let mut full_path_to_tmp_file = PathBuf::from(&tmp_dir);
 
@@ -365,7 +372,14 @@ fn file_is_source_file_with_docker(
     // The docker command to invoke the Vyper compiler requires the path where the source file
     // is located to map into the container /code directory.
     let full_file_path = PathBuf::from_str(file_name).unwrap();
-    let base_name = full_file_path.file_name().unwrap().to_str().unwrap();
+    let base_name = match full_file_path.file_name() {
+        Some(name) => name.to_str().unwrap(),
+        None => {
+            return Err(MutagenyxError::SourceDoesNotCompile(String::from(
+                file_name,
+            )))
+        }
+    };
 
     let tmp_dir = env::temp_dir();
 
-- 
2.43.0


From c8fdbeaee50fe2b24f68ed5703b7b79596ff7678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:08 +0000
Subject: [PATCH 65/73] fix: do not pass --stop-after to the Solidity compiler
 twice

---
 mutagenyx_lib/src/solidity/language_interface.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mutagenyx_lib/src/solidity/language_interface.rs b/mutagenyx_lib/src/solidity/language_interface.rs
index 9dde86e..a61bc08 100644
--- a/mutagenyx_lib/src/solidity/language_interface.rs
+++ b/mutagenyx_lib/src/solidity/language_interface.rs
@@ -325,6 +325,11 @@ fn file_compiles(file_name: &str, prefs: &Preferences) -> bool {
         return true;
     }
 
+    // The compiler accepts the '--stop-after' flag only once.
+    if full_compiler_args.iter().any(|arg| arg == "--stop-after") {
+        return false;
+    }
+
     // Compilation failed, try one more time, this time we inject '--stop-after parsing' into the command
     // line for the compiler.
     full_compiler_args.push(String::from("--stop-after"));
-- 
2.43.0


From f3b3fb1bae903a15c64a594254dcca19b0fdc62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:46 +0000
Subject: [PATCH 66/73] fix: keep temporary files in a directory of their own
 and remove them

---
 .../src/json_ast_language_interface.rs        | 21 +++++-----
 .../src/solidity/language_interface.rs        | 24 ++++++++----
 mutagenyx_lib/src/utility.rs                  | 38 +++++++++++++++++++
 mutagenyx_lib/src/vyper/language_interface.rs | 29 +++++++-------
 4 files changed, 79 insertions(+), 33 deletions(-)

diff --git a/mutagenyx_lib/src/json_ast_language_interface.rs b/mutagenyx_lib/src/json_ast_language_interface.rs
index 59b0ba4..cacd661 100644
--- a/mutagenyx_lib/src/json_ast_language_interface.rs
+++ b/mutagenyx_lib/src/json_ast_language_interface.rs
@@ -17,10 +17,10 @@ use crate::preferences::Preferences;
 use crate::pretty_printer::PrettyPrinter;
 use crate::recognizer::FileType;
 use crate::super_ast::SuperAST;
+use crate::utility::ScratchDirectory;
 use rand_pcg::Pcg64;
 use serde_json::Value;
 use std::collections::HashMap;
-use std::env;
 use std::io::Write;
 use std::path::PathBuf;
 
@@ -252,8 +252,12 @@ impl MutableLanguage for JSONLanguageInterface {
         ast: &SuperAST,
         prefs: &Preferences,
     ) -> bool {
-        // We will pretty print the AST to a file in the temp directory.
-        let mut source_file = env::temp_dir();
+        // We will pretty print the AST to a file in a scratch directory.
+        let scratch = match ScratchDirectory::new() {
+            Ok(s) => s,
+            Err(_e) => return false,
+        };
+        let mut source_file = PathBuf::from(scratch.path());
 
         let original_file = PathBuf::from(original_file_name);
         let base_file_name = original_file.file_name().unwrap();
@@ -268,15 +272,8 @@ impl MutableLanguage for JSONLanguageInterface {
             return false;
         }
 
-        let compile_result = self
-            .delegate
-            .mutant_compiles(source_file.to_str().unwrap(), prefs);
-
-        if std::fs::remove_file(source_file.clone()).is_err() {
-            log::debug!("Failed to remove temporary source file: {:?}", source_file);
-        }
-
-        compile_result
+        self.delegate
+            .mutant_compiles(source_file.to_str().unwrap(), prefs)
     }
 
     fn calculate_node_paths(
diff --git a/mutagenyx_lib/src/solidity/language_interface.rs b/mutagenyx_lib/src/solidity/language_interface.rs
index a61bc08..101a417 100644
--- a/mutagenyx_lib/src/solidity/language_interface.rs
+++ b/mutagenyx_lib/src/solidity/language_interface.rs
@@ -28,11 +28,10 @@ use crate::solidity::mutators::SolidityMutatorFactory;
 use crate::solidity::node_finder::SolidityNodeFinderFactory;
 use crate::solidity::pretty_printer::SolidityNodePrinterFactory;
 use crate::super_ast::SuperAST;
-use crate::utility::shell_execute;
+use crate::utility::{shell_execute, ScratchDirectory};
 use crate::visitor::Visitor;
 use crate::Language;
 use serde_json::Value;
-use std::env;
 use std::io::Write;
 use std::path::PathBuf;
 use std::str::FromStr;
@@ -99,7 +98,7 @@ impl JSONLanguageDelegate for SolidityLanguageSubDelegate {
         file_name: &str,
         prefs: &Preferences,
     ) -> Result<SuperAST, MutagenyxError> {
-        if let Ok(s) = file_is_source_file(file_name, prefs) {
+        if let Ok((_scratch, s)) = file_is_source_file(file_name, prefs) {
             let value = load_json_from_file_with_name(&s)?;
             return <SolidityLanguageSubDelegate as JSONLanguageDelegate>::get_value_as_super_ast(
                 self, value,
@@ -240,13 +239,17 @@ fn get_solidity_compiler_from_preferences(prefs: &Preferences) -> String {
     solidity_compiler
 }
 
-/// Try to execute the Solidity compiler on the command line.
+/// Try to execute the Solidity compiler on the command line.  Return the path to the file that
+/// contains the AST, and the scratch directory that contains the file.
 ///
 /// # Arguments
 ///
 /// * `file_name` - The path to the source file to compile.
 /// * `prefs` - The [`Preferences`] object that may contain a value for `solidity_compiler`.
-fn file_is_source_file(file_name: &str, prefs: &Preferences) -> Result<String, MutagenyxError> {
+fn file_is_source_file(
+    file_name: &str,
+    prefs: &Preferences,
+) -> Result<(ScratchDirectory, String), MutagenyxError> {
     let file_path = PathBuf::from_str(file_name).unwrap();
     let base_name = match file_path.file_name() {
         Some(name) => name.to_str().unwrap(),
@@ -256,7 +259,8 @@ fn file_is_source_file(file_name: &str, prefs: &Preferences) -> Result<String, M
             )))
         }
     };
-    let tmp_dir = env::temp_dir();
+    let scratch = ScratchDirectory::new()?;
+    let tmp_dir = scratch.path();
     let separator = String::from(std::path::MAIN_SEPARATOR);
     let out_path =
         String::from(tmp_dir.to_str().unwrap()) + separator.as_str() + base_name + "_json.ast";
@@ -284,7 +288,7 @@ fn file_is_source_file(file_name: &str, prefs: &Preferences) -> Result<String, M
     match shell_execute(&solidity_compiler, full_compiler_args) {
         Ok(output) => {
             if output.status.success() {
-                Ok(out_path)
+                Ok((scratch, out_path))
             } else {
                 let stdout_contents = String::from_utf8_lossy(output.stdout.as_slice());
                 let stderr_contents = String::from_utf8_lossy(output.stderr.as_slice());
@@ -311,7 +315,11 @@ fn file_is_source_file(file_name: &str, prefs: &Preferences) -> Result<String, M
 /// * `file_name` - The name of the file in the file system to compile.
 /// * `prefs` - The [`Preferences`] object containing compiler settings.
 fn file_compiles(file_name: &str, prefs: &Preferences) -> bool {
-    let tmp_dir = env::temp_dir();
+    let scratch = match ScratchDirectory::new() {
+        Ok(s) => s,
+        Err(_e) => return false,
+    };
+    let tmp_dir = scratch.path();
     let args = vec!["--overwrite", "-o", tmp_dir.to_str().unwrap(), file_name];
 
     let solidity_compiler = get_solidity_compiler_from_preferences(prefs);
diff --git a/mutagenyx_lib/src/utility.rs b/mutagenyx_lib/src/utility.rs
index a882e6a..f0465a7 100644
--- a/mutagenyx_lib/src/utility.rs
+++ b/mutagenyx_lib/src/utility.rs
@@ -2,8 +2,46 @@
 //! other parts of the library.
 
 use crate::error::MutagenyxError;
+use std::env;
+use std::fs;
+use std::io::ErrorKind;
+use std::path::{Path, PathBuf};
 use std::process::{Command, Output};
 
+/// A new, empty directory in the temporary directory.  The destructor removes the directory and
+/// its contents.
+pub struct ScratchDirectory {
+    path: PathBuf,
+}
+
+impl ScratchDirectory {
+    /// Create a new directory with a name that nothing in the temporary directory uses yet.
+    pub fn new() -> Result<ScratchDirectory, MutagenyxError> {
+        let mut number: usize = 0;
+        loop {
+            let path = env::temp_dir().join(format!("mutagenyx-{}-{number}", std::process::id()));
+            match fs::create_dir(&path) {
+                Ok(_) => return Ok(ScratchDirectory { path }),
+                Err(e) if e.kind() == ErrorKind::AlreadyExists => number += 1,
+                Err(e) => return Err(MutagenyxError::from(e)),
+            }
+        }
+    }
+
+    /// Return the location of the directory.
+    pub fn path(&self) -> &Path {
+        &self.path
+    }
+}
+
+impl Drop for ScratchDirectory {
+    fn drop(&mut self) {
+        if fs::remove_dir_all(&self.path).is_err() {
+            log::debug!("Failed to remove temporary directory: {:?}", self.path);
+        }
+    }
+}
+
 /// Execute a command using the shell facility on the computer.
 ///
 /// # Arguments
diff --git a/mutagenyx_lib/src/vyper/language_interface.rs b/mutagenyx_lib/src/vyper/language_interface.rs
index 0d8ad36..9e455a7 100644
--- a/mutagenyx_lib/src/vyper/language_interface.rs
+++ b/mutagenyx_lib/src/vyper/language_interface.rs
@@ -21,7 +21,7 @@ use crate::preferences::Preferences;
 use crate::pretty_print_visitor::PrettyPrintVisitor;
 use crate::pretty_printer::PrettyPrinter;
 use crate::super_ast::SuperAST;
-use crate::utility::shell_execute;
+use crate::utility::{shell_execute, ScratchDirectory};
 use crate::visitor::Visitor;
 use crate::vyper::ast::VyperAST;
 use crate::vyper::commenter::VyperCommenterFactory;
@@ -30,7 +30,6 @@ use crate::vyper::mutators::VyperMutatorFactory;
 use crate::vyper::node_finder::VyperNodeFinderFactory;
 use crate::vyper::pretty_printer::VyperNodePrinterFactory;
 use serde_json::Value;
-use std::env;
 use std::io::Write;
 use std::path::PathBuf;
 use std::str::FromStr;
@@ -95,14 +94,14 @@ impl JSONLanguageDelegate for VyperLanguageDelegate {
         file_name: &str,
         prefs: &Preferences,
     ) -> Result<SuperAST, MutagenyxError> {
-        if let Ok(s) = file_is_source_file_with_vyper_from_pip(file_name, prefs) {
+        if let Ok((_scratch, s)) = file_is_source_file_with_vyper_from_pip(file_name, prefs) {
             let value = load_json_from_file_with_name(&s)?;
             return <VyperLanguageDelegate as JSONLanguageDelegate>::get_value_as_super_ast(
                 self, value,
             );
         }
 
-        if let Ok(s) = file_is_source_file_with_docker(file_name, prefs) {
+        if let Ok((_scratch, s)) = file_is_source_file_with_docker(file_name, prefs) {
             let value = load_json_from_file_with_name(&s)?;
             return <VyperLanguageDelegate as JSONLanguageDelegate>::get_value_as_super_ast(
                 self, value,
@@ -269,7 +268,7 @@ fn get_vyper_compiler_version(compiler: &str) -> Result<Versioning, MutagenyxErr
 
 /// Try to execute the vyper compiler on the command line assuming that the user
 /// has installed the pip version of the vyper compiler. Return the path to the
-/// file that contains the Vyper AST.
+/// file that contains the Vyper AST, and the scratch directory that contains the file.
 ///
 /// # Arguments
 ///
@@ -278,7 +277,7 @@ fn get_vyper_compiler_version(compiler: &str) -> Result<Versioning, MutagenyxErr
 fn file_is_source_file_with_vyper_from_pip(
     file_name: &str,
     preferences: &Preferences,
-) -> Result<String, MutagenyxError> {
+) -> Result<(ScratchDirectory, String), MutagenyxError> {
     // This code does the following:
     // * Tries to determine the Vyper compiler version.
     // * Checks the discovered version against the first know version that supports -o output_file
@@ -294,8 +293,8 @@ fn file_is_source_file_with_vyper_from_pip(
             )))
         }
     };
-    let tmp_dir = env::temp_dir();
-    let mut full_path_to_tmp_file = PathBuf::from(&tmp_dir);
+    let scratch = ScratchDirectory::new()?;
+    let mut full_path_to_tmp_file = PathBuf::from(scratch.path());
 
     // The Vyper compiler did not start to support '-o outfile_name' as a command line option until
     // Vyper compiler version 3.0.0.
@@ -346,7 +345,10 @@ fn file_is_source_file_with_vyper_from_pip(
                     let mut file = std::fs::File::create(full_path_to_tmp_file.to_str().unwrap())?;
                     write!(file, "{ast_contents}")?;
                 }
-                Ok(String::from(full_path_to_tmp_file.to_str().unwrap()))
+                Ok((
+                    scratch,
+                    String::from(full_path_to_tmp_file.to_str().unwrap()),
+                ))
             } else {
                 Err(MutagenyxError::SourceDoesNotCompile(String::from(
                     file_name,
@@ -360,7 +362,7 @@ fn file_is_source_file_with_vyper_from_pip(
 }
 
 /// Try to execute the vyper compiler in a docker container. On success, return the path to
-/// the output file that contains the Vyper AST.
+/// the output file that contains the Vyper AST, and the scratch directory that contains the file.
 ///
 /// # Arguments
 ///
@@ -368,7 +370,7 @@ fn file_is_source_file_with_vyper_from_pip(
 fn file_is_source_file_with_docker(
     file_name: &str,
     preferences: &Preferences,
-) -> Result<String, MutagenyxError> {
+) -> Result<(ScratchDirectory, String), MutagenyxError> {
     // The docker command to invoke the Vyper compiler requires the path where the source file
     // is located to map into the container /code directory.
     let full_file_path = PathBuf::from_str(file_name).unwrap();
@@ -381,7 +383,8 @@ fn file_is_source_file_with_docker(
         }
     };
 
-    let tmp_dir = env::temp_dir();
+    let scratch = ScratchDirectory::new()?;
+    let tmp_dir = scratch.path();
 
     let separator = String::from(std::path::MAIN_SEPARATOR);
 
@@ -418,7 +421,7 @@ fn file_is_source_file_with_docker(
     match shell_execute("docker", args) {
         Ok(output) => {
             if output.status.success() {
-                Ok(out_path)
+                Ok((scratch, out_path))
             } else {
                 Err(MutagenyxError::SourceDoesNotCompile(String::from(
                     file_name,
-- 
2.43.0


From 8dbe76d26f3befde14411ec4d3e3c8ea315fa8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:46 +0000
Subject: [PATCH 67/73] fix: do not overwrite the input file when
 pretty-printing

---
 mutagenyx/src/pretty_printing.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/mutagenyx/src/pretty_printing.rs b/mutagenyx/src/pretty_printing.rs
index 13a659d..4c59632 100644
--- a/mutagenyx/src/pretty_printing.rs
+++ b/mutagenyx/src/pretty_printing.rs
@@ -65,6 +65,24 @@ pub fn pretty_print_files(args: PrettyPrintCLArgs) {
     }
 }
 
+/// Check that writing to `output_file` will not overwrite `input_file`.
+///
+/// # Arguments
+///
+/// * `input_file` - The path to the input file.
+/// * `output_file` - The path to the output file.
+fn check_output_is_not_input(input_file: &Path, output_file: &Path) -> Result<(), MutagenyxError> {
+    if let (Ok(input), Ok(output)) = (input_file.canonicalize(), output_file.canonicalize()) {
+        if input == output {
+            return Err(MutagenyxError::from(std::io::Error::new(
+                std::io::ErrorKind::AlreadyExists,
+                format!("output would overwrite input file {input_file:?}"),
+            )));
+        }
+    }
+    Ok(())
+}
+
 /// Pretty-print an individual file.
 ///
 /// # Arguments
@@ -107,6 +125,8 @@ pub fn pretty_print_file(
 
     let outfile = String::from(outfile_name.to_str().unwrap());
 
+    check_output_is_not_input(&input_file_path, &outfile_name)?;
+
     // Try to create the output directory:
     std::fs::create_dir_all(outfile_name.parent().unwrap())?;
 
@@ -179,6 +199,8 @@ pub fn pretty_print_ast(
 
     let outfile = String::from(outfile_name.to_str().unwrap());
 
+    check_output_is_not_input(&input_file_name, &outfile_name)?;
+
     // Try to create the output directory:
     std::fs::create_dir_all(outfile_name.parent().unwrap())?;
 
-- 
2.43.0


From 33fb03d17c96c514323066cb9f655cc19ba28cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:31 +0000
Subject: [PATCH 68/73] fix: recognize plain Vyper compiler version numbers

---
 mutagenyx_lib/src/vyper/language_interface.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/vyper/language_interface.rs b/mutagenyx_lib/src/vyper/language_interface.rs
index 9e455a7..b81001e 100644
--- a/mutagenyx_lib/src/vyper/language_interface.rs
+++ b/mutagenyx_lib/src/vyper/language_interface.rs
@@ -241,7 +241,9 @@ fn get_vyper_compiler_version(compiler: &str) -> Result<Versioning, MutagenyxErr
                         if let Some(value) = v.nth(2) {
                             vstr += &(value).to_string();
                         }
-                        match Versioning::new(&vstr) {
+                        // Mess does not recognize the last number of a plain version string like
+                        // `0.4.0`, so fall back to the complete string.
+                        match Versioning::new(&vstr).or_else(|| Versioning::new(output_version)) {
                             Some(version) => version,
                             None => {
                                 return Err(MutagenyxError::CompilerNoVersion(String::from(
-- 
2.43.0


From 760bdd6f7c2169dd26862b9d0b02f43dcffc8e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:21 +0000
Subject: [PATCH 69/73] fix: do not crash in the algorithm list on terminals
 that report no width

---
 mutagenyx/src/mutations_info.rs     | 11 +++++------
 mutagenyx_lib/src/pretty_printer.rs |  2 +-
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/mutagenyx/src/mutations_info.rs b/mutagenyx/src/mutations_info.rs
index 24dbea2..41f2e4e 100644
--- a/mutagenyx/src/mutations_info.rs
+++ b/mutagenyx/src/mutations_info.rs
@@ -43,16 +43,15 @@ pub fn display_mutations_info(params: AlgorithmsCLArgs) {
 /// running terminal (in rows and columns).
 fn get_terminal_size() -> termsize::Size {
     // Get the console dimensions.
-    if let Some(size) = termsize::get() {
-        size
-    } else {
+    match termsize::get() {
+        Some(size) if size.cols > 0 => size,
         // We get to this case if the tool runs in a non-terminal window (ie as part of a script
-        // running somewhere in a workflow.
-        termsize::Size {
+        // running somewhere in a workflow, or if the terminal does not report its size.
+        _ => termsize::Size {
             // In this use case, rows doesn't matter, we only need a semi-valid cols value.
             rows: 50,
             cols: 80,
-        }
+        },
     }
 }
 
diff --git a/mutagenyx_lib/src/pretty_printer.rs b/mutagenyx_lib/src/pretty_printer.rs
index a999d80..30f140f 100644
--- a/mutagenyx_lib/src/pretty_printer.rs
+++ b/mutagenyx_lib/src/pretty_printer.rs
@@ -215,7 +215,7 @@ impl PrettyPrinter {
                 self.write_basic_string(stream, token)?;
             }
         } else {
-            if token.len() > (self.page_width - self.column) {
+            if self.column + token.len() > self.page_width {
                 self.write_newline(stream)?;
                 self.write_indent(stream)?;
             }
-- 
2.43.0


From 739a0f2b6a7eec6f15799913efff836e4ed87d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:34 +0000
Subject: [PATCH 70/73] fix: keep the license comment on one line

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 0123b71..33dc040 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -257,13 +257,12 @@ impl NodePrinter<SolidityAST> for SourceUnitPrinter {
         node: &SolidityAST,
     ) {
         if let Some(license) = node.get_str_for_key("license") {
-            write_token(printer, stream, "//");
-            write_space(printer, stream);
-            write_token(printer, stream, "SPDX-License-Identifier");
-            write_token(printer, stream, ":");
-            write_space(printer, stream);
-
-            write_token(printer, stream, license);
+            // A single token, no line break can end the comment before the license.
+            write_token(
+                printer,
+                stream,
+                format!("// SPDX-License-Identifier: {}", license).as_str(),
+            );
             write_newline(printer, stream);
         }
     }
-- 
2.43.0


From 182d9ac0ac89291c7dc64ba3487dc891230a837c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:13 +0000
Subject: [PATCH 71/73] fix: keep the children of permitted nodes mutable after
 a permitted node nested in them

---
 mutagenyx_lib/src/mutation_visitor.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/mutagenyx_lib/src/mutation_visitor.rs b/mutagenyx_lib/src/mutation_visitor.rs
index e1efa0c..79d29cd 100644
--- a/mutagenyx_lib/src/mutation_visitor.rs
+++ b/mutagenyx_lib/src/mutation_visitor.rs
@@ -172,9 +172,9 @@ pub struct MutableNodesCounter<'a, AST> {
     /// A [`Namer<AST>`] trait object that can convert an AST node to a name string.
     namer: Box<dyn Namer<AST> + 'a>,
 
-    /// True if the visitor is traversing the children of a mutable node and does not need to
-    /// check the permission for each child.
-    skip_mutation_permission_check: bool,
+    /// The number of nodes with mutable children around the current node.  The visitor does not
+    /// need to check the permission for a child of such a node.
+    mutable_parents: usize,
 }
 
 impl<'a, AST> MutableNodesCounter<'a, AST> {
@@ -197,7 +197,7 @@ impl<'a, AST> MutableNodesCounter<'a, AST> {
             permitter,
             rng,
             namer,
-            skip_mutation_permission_check: false,
+            mutable_parents: 0,
         }
     }
 }
@@ -210,7 +210,7 @@ impl<'a, AST> Visitor<AST> for MutableNodesCounter<'a, AST> {
     }
 
     fn visit(&mut self, node: &AST) -> bool {
-        if self.skip_mutation_permission_check
+        if self.mutable_parents > 0
             || has_permission_to_mutate(self.namer.as_ref(), self.permitter.as_ref(), node)
         {
             for (key, mutator) in self.mutator_map.iter_mut() {
@@ -233,13 +233,13 @@ impl<'a, AST> Visitor<AST> for MutableNodesCounter<'a, AST> {
 
     fn on_start_visit_children(&mut self, node: &AST) {
         if has_permission_to_mutate_children(self.namer.as_ref(), self.permitter.as_ref(), node) {
-            self.skip_mutation_permission_check = true;
+            self.mutable_parents += 1;
         }
     }
 
     fn on_end_visit_children(&mut self, node: &AST) {
         if has_permission_to_mutate_children(self.namer.as_ref(), self.permitter.as_ref(), node) {
-            self.skip_mutation_permission_check = false;
+            self.mutable_parents -= 1;
         }
     }
 
@@ -281,8 +281,9 @@ pub struct MutationMaker<'a, AST> {
     /// A [`Namer<AST>`] trait object that can convert an AST node to a name string.
     namer: Box<dyn Namer<AST> + 'a>,
 
-    /// True if the visitor is mutating child nodes and can skip the node mutation permission check.
-    skip_mutation_permission_check: bool,
+    /// The number of nodes with mutable children around the current node.  The visitor does not
+    /// need to check the permission for a child of such a node.
+    mutable_parents: usize,
 
     /// The cached results from the mutation.
     pub mutation_results: MutatorResult,
@@ -319,7 +320,7 @@ impl<'a, AST> MutationMaker<'a, AST> {
             mutated_node_id: 0_u64,
             mutator_comment: None,
             namer,
-            skip_mutation_permission_check: false,
+            mutable_parents: 0,
             mutation_results: MutatorResult::new(),
             error: None,
         }
@@ -334,7 +335,7 @@ impl<'a, AST> VisitorMut<AST> for MutationMaker<'a, AST> {
     }
 
     fn visit_mut(&mut self, node: &mut AST) -> bool {
-        if (self.skip_mutation_permission_check
+        if (self.mutable_parents > 0
             || has_permission_to_mutate(self.namer.as_ref(), self.permitter.as_ref(), node))
             && self.mutator.is_mutable_node(node, self.rng)
         {
@@ -367,13 +368,13 @@ impl<'a, AST> VisitorMut<AST> for MutationMaker<'a, AST> {
 
     fn on_start_visit_children(&mut self, node: &AST) {
         if has_permission_to_mutate_children(self.namer.as_ref(), self.permitter.as_ref(), node) {
-            self.skip_mutation_permission_check = true;
+            self.mutable_parents += 1;
         }
     }
 
     fn on_end_visit_children(&mut self, node: &AST) {
         if has_permission_to_mutate_children(self.namer.as_ref(), self.permitter.as_ref(), node) {
-            self.skip_mutation_permission_check = false;
+            self.mutable_parents -= 1;
         }
     }
 
-- 
2.43.0


From bd26983758567aba599dd6cc696cf341f17c9e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:58 +0000
Subject: [PATCH 72/73] fix: report errors when writing pretty-printed output

The node printers drop write errors, so a mutant or printed file that could not
be written in full was announced as written.
---
 .../src/json_ast_language_interface.rs        | 34 +++++++++++++------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/mutagenyx_lib/src/json_ast_language_interface.rs b/mutagenyx_lib/src/json_ast_language_interface.rs
index cacd661..abdf865 100644
--- a/mutagenyx_lib/src/json_ast_language_interface.rs
+++ b/mutagenyx_lib/src/json_ast_language_interface.rs
@@ -57,6 +57,26 @@ impl JSONLanguageInterface {
         // Defer the recovery of the AST to the language-specific delegate.
         self.delegate.recover_ast(ast)
     }
+
+    /// Pretty-print `ast` to memory and return the text.  The node printers do not report write
+    /// errors, so callers write the finished text, where they can see an error.
+    ///
+    /// # Arguments
+    ///
+    /// * `ast` - The AST to pretty-print.
+    /// * `pretty_printer` - The object that formats the output.
+    fn pretty_print_to_bytes(&self, ast: &Value, pretty_printer: &mut PrettyPrinter) -> Vec<u8> {
+        let mut text: Vec<u8> = Vec::new();
+        {
+            let mut pretty_print_visitor = self
+                .delegate
+                .get_pretty_print_visitor(&mut text, pretty_printer);
+
+            // Traverse each node of the tree, process the node, and recover the original program.
+            ASTTraverser::traverse(ast, &mut *pretty_print_visitor);
+        }
+        text
+    }
 }
 
 impl MutableLanguage for JSONLanguageInterface {
@@ -191,12 +211,9 @@ impl MutableLanguage for JSONLanguageInterface {
         let actual_ast = self.recover_json_ast(ast)?;
         let mut f = std::fs::File::create(file_name)?;
 
-        let mut pretty_print_visitor = self
-            .delegate
-            .get_pretty_print_visitor(&mut f, pretty_printer);
+        let text = self.pretty_print_to_bytes(actual_ast, pretty_printer);
 
-        // Traverse each node of the tree, process the node, and recover the original program.
-        ASTTraverser::traverse(actual_ast, &mut *pretty_print_visitor);
+        f.write_all(&text)?;
 
         Ok(())
     }
@@ -209,12 +226,9 @@ impl MutableLanguage for JSONLanguageInterface {
     ) -> Result<(), MutagenyxError> {
         let actual_ast = self.recover_json_ast(ast)?;
 
-        let mut pretty_print_visitor = self
-            .delegate
-            .get_pretty_print_visitor(stream, pretty_printer);
+        let text = self.pretty_print_to_bytes(actual_ast, pretty_printer);
 
-        // Traverse each node of the tree, process the node, and recover the original program.
-        ASTTraverser::traverse(actual_ast, &mut *pretty_print_visitor);
+        stream.write_all(&text)?;
 
         Ok(())
     }
-- 
2.43.0


From 2cc049af131c778348d64c21a5e6ab28527224a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:53 +0000
Subject: [PATCH 73/73] fix: keep the indentation of Vyper blocks nested past
 the page width

---
 mutagenyx_lib/src/pretty_printer.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mutagenyx_lib/src/pretty_printer.rs b/mutagenyx_lib/src/pretty_printer.rs
index 30f140f..60ab96b 100644
--- a/mutagenyx_lib/src/pretty_printer.rs
+++ b/mutagenyx_lib/src/pretty_printer.rs
@@ -52,9 +52,10 @@ impl PrettyPrinter {
 
     /// Increase the indentation level by 1.
     ///
-    /// The function will not increase the indent level past the page width.
+    /// The function will not increase the indent level past the page width, unless the printer
+    /// may not break lines.  The indentation then has a meaning in the printed language.
     pub fn increase_indent(&mut self) {
-        if self.indent >= self.max_indent {
+        if self.break_lines && self.indent >= self.max_indent {
             self.indent = self.max_indent;
         } else {
             self.indent += 1;
@@ -64,13 +65,13 @@ impl PrettyPrinter {
     /// Increase the indentation by `amount`.
     ///
     /// Use `increase_indent_by` when using a tab size of 1.  The function will not increase
-    /// the indent level past the page width.
+    /// the indent level past the page width, unless the printer may not break lines.
     ///
     /// # Arguments
     ///
     /// * `amount` - The number of indents to add to the current indent value.
     pub fn increase_indent_by(&mut self, amount: usize) {
-        if (self.indent + amount) <= self.max_indent {
+        if !self.break_lines || (self.indent + amount) <= self.max_indent {
             self.indent += amount;
         } else {
             self.indent = self.max_indent;
-- 
2.43.0

