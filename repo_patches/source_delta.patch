From 47ba9a861813053a21b8461b7b3d3a57b7137f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 01/25] fix: scan for the end of a keyword by byte offset, not
 by character count

A non-ASCII letter or digit in an identifier-like word made the lexer slice
the source inside a multi-byte character and panic.
---
 src/parser/lexer.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index e019b86..3b36512 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -385,8 +385,7 @@ impl<'input> Iterator for Lexer<'input> {
                         _ => {
                             let token_str: &str = &self.document[start..];
                             let mut index = 0;
-                            let token_str_chars = token_str.chars();
-                            for (i, c) in token_str_chars.enumerate() {
+                            for (i, c) in token_str.char_indices() {
                                 if !c.is_alphanumeric() && c != '_' {
                                     index = i;
                                     break;
-- 
2.43.0


From 23bf917a6d3e690f5c956fd944b4afe00475815d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 02/25] fix: do not skip source text after a string literal
 with non-ASCII characters

The lexer advanced its character cursor by the literal's byte length, so every
multi-byte character in a string swallowed characters following the literal.
---
 src/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 3b36512..559f46e 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -655,7 +655,7 @@ impl<'input> Iterator for Lexer<'input> {
                                             let end = start + mat.end();
                                             let s = &self.document[start..end];
                                             if mat.end() > 1 {
-                                                self.chars.nth(end - start - 2);
+                                                self.chars.nth(s.chars().count() - 2);
                                                 // -2, because we already consumed the first char
                                             }
 
-- 
2.43.0


From 60d4120a5757e6557ad59f8c243405ec234752eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 03/25] fix: do not split type names that start with ByStr

ByStrange was read as ByStr followed by ange, and ByStr20Foo as ByStr20
followed by Foo, instead of as one type name.
---
 src/parser/lexer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 559f46e..d573906 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -602,7 +602,8 @@ impl<'input> Iterator for Lexer<'input> {
                                     }
                                     _ => {
                                         // Handle other cases here
-                                        let bystr_with_size = Regex::new(r"^ByStr[0-9]+").unwrap();
+                                        let bystr_with_size =
+                                            Regex::new(r"^ByStr[0-9]+\b").unwrap();
 
                                         let signed_integer = Regex::new(r"^[+-]?[0-9]+").unwrap();
                                         let hex_number =
@@ -627,7 +628,7 @@ impl<'input> Iterator for Lexer<'input> {
                                             }
 
                                             (Token::ByStrWithSize(s), source_position.with_end(end))
-                                        } else if token_str.starts_with(KEYWORD_BYSTR) {
+                                        } else if keyword_token == KEYWORD_BYSTR {
                                             self.chars.nth(KEYWORD_BYSTR.len() - 2);
                                             (
                                                 Token::ByStr,
-- 
2.43.0


From f748a482be8176a19593747a1e0b33b6d9d0fff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 04/25] fix: reject a comment that is never closed

Everything after an unterminated comment was silently ignored, so a contract
cut off by a stray comment opener was accepted as if it ended there.
---
 src/parser/lexer.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index d573906..604ec2b 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -311,17 +311,27 @@ impl<'input> Iterator for Lexer<'input> {
 
                     self.chars.next(); // Consume '*'
                     let mut comment = String::new();
+                    let mut terminated = false;
 
                     while let Some((_, ch)) = self.chars.next() {
                         if ch == '*' && self.chars.peek().map(|(_, next_ch)| *next_ch) == Some(')')
                         {
                             self.chars.next();
+                            terminated = true;
                             break;
                         } else {
                             comment.push(ch);
                         }
                     }
 
+                    if !terminated {
+                        return Some(Ok((
+                            source_position,
+                            Token::Unknown,
+                            source_position.with_end(start + 2),
+                        )));
+                    }
+
                     continue;
                     // TODO: Hack to avoid emitting comment. However, ideally these should be part of the AST or at least the token stream
                     // let len = comment.len();
-- 
2.43.0


From 81f91c73e54d93ca8aec7c299c11cc082671dc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 05/25] fix: report the right line and column for tokens

The column lagged one token behind, and line breaks inside comments and string
literals were not counted.
---
 src/parser/lexer.rs | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 604ec2b..c152a2a 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -190,11 +190,8 @@ pub struct Lexer<'input> {
     document: &'input str,
     /// The current line number being tokenized.
     line: usize,
-    /// The current character number within the current line being tokenized.
-    character: usize,
-
-    /// The last position the lexer visited
-    last_position: usize,
+    /// The byte offset at which the current line starts.
+    line_start: usize,
 }
 
 impl<'input> Lexer<'input> {
@@ -203,10 +200,15 @@ impl<'input> Lexer<'input> {
             chars: input.char_indices().peekable(),
             document: input,
             line: 0, // Note: We use machine indices, not human indices
-            character: 0,
-            last_position: 0,
+            line_start: 0,
         }
     }
+
+    /// Registers the line break found at the given byte offset.
+    fn new_line(&mut self, position: usize) {
+        self.line += 1;
+        self.line_start = position + 1;
+    }
 }
 
 #[derive(Clone, Copy, Debug, PartialEq, PartialOrd, Eq, Default)]
@@ -252,13 +254,11 @@ impl<'input> Iterator for Lexer<'input> {
             let source_position = SourcePosition {
                 position: start,
                 line: self.line,
-                column: self.character,
+                column: start - self.line_start,
             };
 
             let (token, end): (Token<&'input str>, SourcePosition) = {
                 let look_ahead = self.chars.peek().map(|(_, next_ch)| *next_ch);
-                self.character += start - self.last_position;
-                self.last_position = start;
 
                 let next_is_alpha_num_under = look_ahead
                     .map(|c| c.is_alphanumeric() || c == '_')
@@ -268,8 +268,7 @@ impl<'input> Iterator for Lexer<'input> {
                 // Handle more complex tokens, whitespace, and comments
                 if ch.is_whitespace() {
                     if ch == '\n' {
-                        self.character = 0;
-                        self.line += 1;
+                        self.new_line(start);
                     }
                     continue;
                 } else if ch == '=' && look_ahead == Some('>') {
@@ -313,7 +312,10 @@ impl<'input> Iterator for Lexer<'input> {
                     let mut comment = String::new();
                     let mut terminated = false;
 
-                    while let Some((_, ch)) = self.chars.next() {
+                    while let Some((position, ch)) = self.chars.next() {
+                        if ch == '\n' {
+                            self.new_line(position);
+                        }
                         if ch == '*' && self.chars.peek().map(|(_, next_ch)| *next_ch) == Some(')')
                         {
                             self.chars.next();
@@ -670,7 +672,18 @@ impl<'input> Iterator for Lexer<'input> {
                                                 // -2, because we already consumed the first char
                                             }
 
-                                            (Token::StringLiteral(s), source_position.with_end(end))
+                                            for (position, _) in s.match_indices('\n') {
+                                                self.new_line(start + position);
+                                            }
+
+                                            (
+                                                Token::StringLiteral(s),
+                                                SourcePosition {
+                                                    position: end,
+                                                    line: self.line,
+                                                    column: end - self.line_start,
+                                                },
+                                            )
                                         } else if let Some(mat) = regular_id.find(token_str) {
                                             let end = start + mat.end();
                                             let s = &self.document[start..end];
-- 
2.43.0


From 8f7e948cb93dbc3b3492005415f0c07bc19d4126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 06/25] fix: span of integer literals and of several import
 lines

An integer literal's span ended where the following token starts, and a list of
several imports was positioned at its last import.
---
 src/parser/parser.lalrpop | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index 252dd22..bcb1089 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -167,8 +167,8 @@ pub ImportedName: WithMetaData<NodeImportedName> = {
 // @return A list of one or more imported names.
 //
 pub ImportDeclarations: WithMetaData<NodeImportDeclarations> = {
-	<prev:ImportDeclarations>
-	<start:@L> "import" <n:ImportedName> <end:@R> => 
+	<start:@L> <prev:ImportDeclarations>
+	"import" <n:ImportedName> <end:@R> => 
         WithMetaData::<NodeImportDeclarations> {
             node: {
     		let mut ret = NodeImportDeclarations {
@@ -1178,7 +1178,7 @@ pub AtomicExpression: WithMetaData<NodeAtomicExpression> = {
 // @syntax valueLiteral
 // @return A value literal as a signed or unsigned integer, a hexadecimal value, a string, or an empty map.
 pub ValueLiteral: WithMetaData<NodeValueLiteral> = {
-	<start:@L> <n: TypeNameIdentifier> <v: SignedInteger> <end:@L> => 
+	<start:@L> <n: TypeNameIdentifier> <v: SignedInteger> <end:@R> => 
     WithMetaData::<NodeValueLiteral> { 
         node: NodeValueLiteral::LiteralInt(n, v),
         start,
-- 
2.43.0


From 85c289c2584a3ab4a816451999c1e6e3b11e2e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 07/25] fix: reject a comma before the first parameter

The documented rule puts commas between parameters only, but (, a : Uint32) was
accepted.
---
 src/parser/parser.lalrpop | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index bcb1089..50bf509 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -1541,15 +1541,19 @@ pub NextParameterPair: WithMetaData<NodeParameterPair> = {
 // @syntax componentParameters
 // @return Scilla component parameters with zero or more parameter pairs.
 pub ComponentParameters : WithMetaData<NodeComponentParameters> = {
+   <start:@L> "(" ")" <end:@R>
+   => WithMetaData::<NodeComponentParameters> {
+       node: NodeComponentParameters { parameters: Vec::new() },
+       start,
+       end
+    },
    <start:@L> "(" 
-   <p:ParameterPair?> <next_params:NextParameterPair*>
+   <p:ParameterPair> <next_params:NextParameterPair*>
    ")" <end:@R>
    => WithMetaData::<NodeComponentParameters> {
        node: {
            let mut parameters: Vec<WithMetaData<NodeParameterPair>> = Vec::new();
-           if let Some(pair) = p {
-    	        parameters.push(pair);
-           }
+           parameters.push(p);
 
            for p in next_params {
                parameters.push(p);
-- 
2.43.0


From 43ae2f8589692d33a2f8c7559f1b6c5e5a7d5088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 08/25] fix: a forall type covers the whole function type after
 its dot

forall 'A. T -> U was read as (forall 'A. T) -> U instead of the documented
'forall' <templateTypeIdentifier> '.' <scillaType>.
---
 src/parser/parser.lalrpop | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index 50bf509..ad601e9 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -309,6 +309,15 @@ pub BuiltinArguments: WithMetaData<NodeBuiltinArguments> = {
 }
 
 pub RemainingTypes: WithMetaData<NodeScillaType> = {
+    <t: NonPolymorphicType> => t,
+    <start:@L> "forall" <template_variable: TemplateTypeId> "." <type_name: ScillaType> <end:@R> => WithMetaData::<NodeScillaType> { 
+        node:  NodeScillaType::PolyFunctionType(template_variable, Box::new(type_name)),
+        start,
+        end
+    },
+}
+
+NonPolymorphicType: WithMetaData<NodeScillaType> = {
     <start:@L> <meta_identifier: MetaIdentifier> <arguments: TypeArgument*> <end:@R> => WithMetaData::<NodeScillaType> { 
         node:  NodeScillaType::GenericTypeWithArgs(meta_identifier, arguments),
         start,
@@ -329,11 +338,6 @@ pub RemainingTypes: WithMetaData<NodeScillaType> = {
         start,
         end
     },
-    <start:@L> "forall" <template_variable: TemplateTypeId> "." <type_name: RemainingTypes> <end:@R> => WithMetaData::<NodeScillaType> { 
-        node:  NodeScillaType::PolyFunctionType(template_variable, Box::new(type_name)),
-        start,
-        end
-    },
     <start:@L> <template_variable: TemplateTypeId> <end:@R> => WithMetaData::<NodeScillaType> { 
         node:  NodeScillaType::TypeVarType(template_variable),
         start,
@@ -342,12 +346,12 @@ pub RemainingTypes: WithMetaData<NodeScillaType> = {
 }
 
 pub FunctionSignature: WithMetaData<NodeScillaType> = {
-	<start:@L> <from_type: RemainingTypes> "->" <to_type: FunctionSignature> <end:@R> => WithMetaData::<NodeScillaType> {
+	<start:@L> <from_type: NonPolymorphicType> "->" <to_type: FunctionSignature> <end:@R> => WithMetaData::<NodeScillaType> {
         node: NodeScillaType::FunctionType(Box::new(from_type), Box::new(to_type)),
         start,
         end
     },
-	<start:@L> <from_type: RemainingTypes> "->" <to_type: RemainingTypes> <end:@R> => WithMetaData::<NodeScillaType> {
+	<start:@L> <from_type: NonPolymorphicType> "->" <to_type: RemainingTypes> <end:@R> => WithMetaData::<NodeScillaType> {
         node:  NodeScillaType::FunctionType(Box::new(from_type), Box::new(to_type)),
         start,
         end
-- 
2.43.0


From 9830eb5c1c30dab248493f18767c10da71229b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 09/25] fix: accept address types as map keys

Map (ByStr20 with end) Uint32 failed with 'Expected symbol name'.
---
 src/simplified_representation/emitter.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index ef4310e..fb8171c 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -164,8 +164,12 @@ impl AstConverting for SrEmitter {
         match node {
             NodeTypeMapKey::GenericMapKey(key) => key.visit(self)?,
             NodeTypeMapKey::EnclosedGenericId(key) => key.visit(self)?,
-            NodeTypeMapKey::EnclosedAddressMapKeyType(key) => key.visit(self)?,
-            NodeTypeMapKey::AddressMapKeyType(key) => key.visit(self)?,
+            NodeTypeMapKey::EnclosedAddressMapKeyType(key)
+            | NodeTypeMapKey::AddressMapKeyType(key) => {
+                // An address type is already a complete type definition.
+                key.visit(self)?;
+                return Ok(TraversalResult::SkipChildren);
+            }
         };
         let identifier = self.pop_ir_identifier()?;
         self.stack
-- 
2.43.0


From 0f0448b579ffef60d35915c9b46162049b082164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 10/25] fix: convert a map used as type argument inside a map
 value

Map ByStr20 (Option Map ByStr20 Uint32) hit a todo!() and panicked.
---
 src/simplified_representation/emitter.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index fb8171c..369a9cd 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -686,7 +686,18 @@ impl AstConverting for SrEmitter {
                         self.stack
                             .push(StackObject::TypeDefinition(identifier.into()));
                     }
-                    NodeTypeMapValueArguments::MapKeyValueType(_, _) => todo!(),
+                    NodeTypeMapValueArguments::MapKeyValueType(k, v) => {
+                        k.visit(self)?;
+                        v.visit(self)?;
+                        let value = self.pop_type_definition()?;
+                        let key = self.pop_type_definition()?;
+                        let map = SrType {
+                            main_type: "Map".to_string(),
+                            sub_types: vec![key, value],
+                            address_type: None,
+                        };
+                        self.stack.push(StackObject::TypeDefinition(map));
+                    }
                 };
             }
             TreeTraversalMode::Exit => (),
-- 
2.43.0


From 4a9b9ca6c0c680d4f10e44269d8c367f3763d3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 11/25] fix: report the Event type by its name

Nothing was pushed for Event, so a parameter of that type got the type of
whatever was left on the stack, failed, or tripped an assertion.
---
 src/simplified_representation/emitter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index 369a9cd..654c8a0 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -103,7 +103,11 @@ impl AstConverting for SrEmitter {
 
                     self.stack.push(StackObject::IrIdentifier(symbol));
                 }
-                NodeTypeNameIdentifier::EventType => {}
+                NodeTypeNameIdentifier::EventType => {
+                    let symbol = SrIdentifier::new(node.to_string(), SrIdentifierKind::Unknown);
+
+                    self.stack.push(StackObject::IrIdentifier(symbol));
+                }
                 NodeTypeNameIdentifier::TypeOrEnumLikeIdentifier(name) => {
                     let symbol = SrIdentifier::new(name.to_string(), SrIdentifierKind::Unknown);
 
-- 
2.43.0


From 9b091c8f0c4d5e0d5254e3c5ec1527368eead344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 12/25] fix: treat a qualified type name as one symbol

Lib.T and 0xAB.T lost their qualifier, and Lib.T left an extra symbol on the
stack that broke maps and parameters declared after it.
---
 src/simplified_representation/emitter.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index 654c8a0..3297b1c 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -143,7 +143,14 @@ impl AstConverting for SrEmitter {
                 self.stack.push(StackObject::IrIdentifier(symbol));
                 Ok(TraversalResult::SkipChildren)
             }
-            _ => Ok(TraversalResult::Continue),
+            NodeMetaIdentifier::MetaName(_) => Ok(TraversalResult::Continue),
+            NodeMetaIdentifier::MetaNameInNamespace(_, _)
+            | NodeMetaIdentifier::MetaNameInHexspace(_, _) => {
+                // A qualified name is a single symbol.
+                let symbol = SrIdentifier::new(node.to_string(), SrIdentifierKind::Unknown);
+                self.stack.push(StackObject::IrIdentifier(symbol));
+                Ok(TraversalResult::SkipChildren)
+            }
         }
     }
     fn emit_variable_identifier(
-- 
2.43.0


From b95c7a7137eed92da08cfe27a146acd4a0487263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 13/25] fix: keep address type fields with special or qualified
 names

A field such as _balance in an address type was dropped, and the entry before it
was reported in its place or parsing failed.
---
 src/simplified_representation/emitter.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index 3297b1c..a9679bd 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -327,12 +327,11 @@ impl AstConverting for SrEmitter {
     ) -> Result<TraversalResult, String> {
         match mode {
             TreeTraversalMode::Enter => {
-                if let NodeVariableIdentifier::VariableName(n) = &node.identifier.node {
-                    node.type_name.visit(self)?;
-                    let typename = self.pop_type_definition()?;
-                    let s = StackObject::VariableDeclaration(Field::new(&n.node, typename.into()));
-                    self.stack.push(s);
-                }
+                let name = node.identifier.to_string();
+                node.type_name.visit(self)?;
+                let typename = self.pop_type_definition()?;
+                let s = StackObject::VariableDeclaration(Field::new(&name, typename.into()));
+                self.stack.push(s);
             }
             TreeTraversalMode::Exit => (),
         }
-- 
2.43.0


From 17613bc54b3a1e13041efc5e4f3c34f3d46e9a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 14/25] fix: return an error for function, polymorphic and
 variable types

A parameter or field of such a type panicked with 'not implemented'.
---
 src/simplified_representation/emitter.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index a9679bd..f57257c 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -239,8 +239,8 @@ impl AstConverting for SrEmitter {
                 self.stack
                     .push(StackObject::TypeDefinition(identifier.into()));
             }
-            NodeTypeArgument::TemplateTypeArgument(_) => {
-                unimplemented!();
+            NodeTypeArgument::TemplateTypeArgument(name) => {
+                return Err(format!("Type variable {} is not supported here.", name));
             }
             NodeTypeArgument::AddressTypeArgument(n) => {
                 n.visit(self)?;
@@ -294,11 +294,11 @@ impl AstConverting for SrEmitter {
                 self.stack.push(StackObject::TypeDefinition(map));
             }
             NodeScillaType::FunctionType(_a, _b) => {
-                unimplemented!()
+                return Err("Function types are not supported here.".to_string());
             }
 
             NodeScillaType::PolyFunctionType(_name, _a) => {
-                unimplemented!()
+                return Err("Polymorphic types are not supported here.".to_string());
             }
             NodeScillaType::EnclosedType(a) => {
                 let _ = (*a).visit(self)?;
@@ -306,8 +306,8 @@ impl AstConverting for SrEmitter {
             NodeScillaType::ScillaAddresseType(a) => {
                 let _ = (*a).visit(self)?;
             }
-            NodeScillaType::TypeVarType(_name) => {
-                unimplemented!()
+            NodeScillaType::TypeVarType(name) => {
+                return Err(format!("Type variable {} is not supported here.", name));
             }
         };
         Ok(TraversalResult::SkipChildren)
-- 
2.43.0


From 0c2e89783e7e4d878246bf6ba63c2459930a410d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 15/25] fix: return an error for built-in types with the wrong
 number of arguments

Option, List or Pair with too few arguments panicked on an unwrap, and extra
arguments were silently dropped.
---
 src/simplified_representation/emitter.rs    |  2 ++
 src/simplified_representation/primitives.rs | 24 +++++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index f57257c..d2d5ba5 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -330,6 +330,7 @@ impl AstConverting for SrEmitter {
                 let name = node.identifier.to_string();
                 node.type_name.visit(self)?;
                 let typename = self.pop_type_definition()?;
+                typename.check_arity()?;
                 let s = StackObject::VariableDeclaration(Field::new(&name, typename.into()));
                 self.stack.push(s);
             }
@@ -540,6 +541,7 @@ impl AstConverting for SrEmitter {
         let _ = node.annotation.visit(self)?;
 
         let typename = self.pop_type_definition()?;
+        typename.check_arity()?;
 
         let s = StackObject::VariableDeclaration(Field::new(&name.node, typename.into()));
         self.stack.push(s);
diff --git a/src/simplified_representation/primitives.rs b/src/simplified_representation/primitives.rs
index 0aa1620..9240e31 100644
--- a/src/simplified_representation/primitives.rs
+++ b/src/simplified_representation/primitives.rs
@@ -55,6 +55,30 @@ impl SrType {
     pub fn push_sub_type(&mut self, sub_type: SrType) {
         self.sub_types.push(sub_type);
     }
+
+    /// Checks that built-in types are applied to the number of arguments they take.
+    pub fn check_arity(&self) -> Result<(), String> {
+        let arity = match self.main_type.as_str() {
+            "Int32" | "Int64" | "Int128" | "Int256" | "Uint32" | "Uint64" | "Uint128"
+            | "Uint256" | "String" | "BNum" | "Bool" | "ByStr" => Some(0),
+            "Option" | "List" => Some(1),
+            "Pair" | "Map" => Some(2),
+            name => name
+                .strip_prefix("ByStr")
+                .and_then(|size| size.parse::<usize>().ok())
+                .map(|_| 0),
+        };
+
+        match arity {
+            Some(arity) if arity != self.sub_types.len() => Err(format!(
+                "Type {} takes {} argument(s), but {} given.",
+                self.main_type,
+                arity,
+                self.sub_types.len()
+            )),
+            _ => self.sub_types.iter().try_for_each(SrType::check_arity),
+        }
+    }
 }
 
 impl From<SrIdentifier> for SrType {
-- 
2.43.0


From 3c0874bc2ea52fd2983d6657c6dfc770272303b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:33 +0000
Subject: [PATCH 16/25] fix: print map and address types as legal Scilla

Maps were printed with a comma between key and value, address types without a
space before their fields, and address types used as arguments without the
parentheses they need.
---
 src/type.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/type.rs b/src/type.rs
index 79d2f6d..731b5d5 100644
--- a/src/type.rs
+++ b/src/type.rs
@@ -38,6 +38,14 @@ pub enum Type {
     Other(String),
 }
 
+/// The text of a type used as an argument of another type.
+fn nested(r#type: &Type) -> String {
+    match r#type {
+        Type::ByStr20With { .. } => format!("({})", r#type),
+        _ => r#type.to_string(),
+    }
+}
+
 impl Display for Type {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
@@ -52,10 +60,10 @@ impl Display for Type {
             Type::String => write!(f, "String"),
             Type::BNum => write!(f, "BNum"),
             Type::Bool => write!(f, "Bool"),
-            Type::Map(ref k, ref v) => write!(f, "(Map {}, {})", k, v),
-            Type::Option(ref k) => write!(f, "(Option {})", k),
-            Type::List(ref k) => write!(f, "(List {})", k),
-            Type::Pair(ref k, ref v) => write!(f, "(Pair {} {})", k, v),
+            Type::Map(ref k, ref v) => write!(f, "(Map {} {})", nested(k), nested(v)),
+            Type::Option(ref k) => write!(f, "(Option {})", nested(k)),
+            Type::List(ref k) => write!(f, "(List {})", nested(k)),
+            Type::Pair(ref k, ref v) => write!(f, "(Pair {} {})", nested(k), nested(v)),
             Type::ByStr => write!(f, "ByStr"),
             Type::ByStrX(n) => write!(f, "ByStr{}", n),
             Type::ByStr20 => write!(f, "ByStr20"),
@@ -65,7 +73,13 @@ impl Display for Type {
                     .map(|field| format!("field {}: {}", field.name, field.r#type))
                     .collect::<Vec<String>>()
                     .join(", ");
-                write!(f, "ByStr20 with {type_name}{fields} end")
+                write!(f, "ByStr20 with ")?;
+                for part in [type_name, &fields] {
+                    if !part.is_empty() {
+                        write!(f, "{part} ")?;
+                    }
+                }
+                write!(f, "end")
             }
             Type::Other(ref s) => write!(f, "{}", s),
         }
-- 
2.43.0


From d2e39fd05fb0b9f82df2f53b6cd8fe9c7bdf5131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 17/25] fix: propagate visitor errors from argument lists and
 address types

Errors raised while visiting builtin arguments or type arguments were dropped
unless they had one particular text, and an error or skip request at an address
type was ignored.
---
 src/ast/visitor.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ast/visitor.rs b/src/ast/visitor.rs
index 8482719..44202db 100644
--- a/src/ast/visitor.rs
+++ b/src/ast/visitor.rs
@@ -157,7 +157,7 @@ impl AstVisitor for NodeBuiltinArguments {
             self.arguments
                 .iter()
                 .map(|argument| argument.visit(emitter))
-                .find(|r| *r == Err(String::from("Failure")))
+                .find(|r| r.is_err())
                 .unwrap_or(Ok(TraversalResult::Continue))
         } else {
             ret
@@ -327,7 +327,7 @@ impl AstVisitor for NodeAddressType {
             }
             ret
         } else {
-            Ok(TraversalResult::Continue)
+            ret
         }?;
         match children_ret {
             TraversalResult::Continue => emitter.emit_address_type(TreeTraversalMode::Exit, self),
@@ -497,7 +497,7 @@ impl AstVisitor for NodeContractTypeArguments {
             self.type_arguments
                 .iter()
                 .map(|child| child.visit(emitter))
-                .find(|result| *result == Err("".into()))
+                .find(|result| result.is_err())
                 .unwrap_or(Ok(TraversalResult::Continue))
         } else {
             ret
-- 
2.43.0


From ac0f6bcf0881552f40c3ecd157bd5f94ca83ee18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 18/25] fix: do not push source positions that are never popped

Message variables, empty map literals and pattern match clauses pushed a
position a second time without popping it.
---
 src/ast/visitor.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/ast/visitor.rs b/src/ast/visitor.rs
index 44202db..871425a 100644
--- a/src/ast/visitor.rs
+++ b/src/ast/visitor.rs
@@ -433,7 +433,6 @@ impl AstVisitor for NodeMessageEntry {
                 }
                 NodeMessageEntry::MessageVariable(var_identifier1, var_identifier2) => {
                     var_identifier1.visit(emitter)?;
-                    emitter.push_source_position(&var_identifier2.start, &var_identifier2.end);
                     var_identifier2.visit(emitter)
                 }
             }
@@ -519,7 +518,6 @@ impl AstVisitor for NodeValueLiteral {
                 NodeValueLiteral::LiteralInt(type_name, _) => type_name.visit(emitter),
                 NodeValueLiteral::LiteralEmptyMap(type_map_key, type_map_value) => {
                     type_map_key.visit(emitter)?;
-                    emitter.push_source_position(&type_map_value.start, &type_map_value.end);
                     type_map_value.visit(emitter)
                 }
                 _ => Ok(TraversalResult::Continue),
@@ -602,8 +600,6 @@ impl AstVisitor for NodePatternMatchClause {
     fn visit(&self, emitter: &mut dyn AstConverting) -> Result<TraversalResult, String> {
         let ret = emitter.emit_pattern_match_clause(TreeTraversalMode::Enter, self);
         let children_ret = if ret == Ok(TraversalResult::Continue) {
-            emitter
-                .push_source_position(&self.pattern_expression.start, &self.pattern_expression.end);
             match self.pattern_expression.visit(emitter) {
                 Err(msg) => Err(msg),
                 _ => match &self.statement_block {
-- 
2.43.0


From 90b28dce26bd60bea56be9e60177b8f04c294a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 19/25] fix: visit library let definitions instead of panicking

---
 src/ast/visitor.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ast/visitor.rs b/src/ast/visitor.rs
index 871425a..045ad4e 100644
--- a/src/ast/visitor.rs
+++ b/src/ast/visitor.rs
@@ -984,13 +984,13 @@ impl AstVisitor for NodeLibrarySingleDefinition {
             match self {
                 NodeLibrarySingleDefinition::LetDefinition {
                     variable_name: _,
-                    type_annotation: _,
+                    type_annotation,
                     expression,
                 } => {
-                    // TODO: Unused variables aboce
-                    let _ = expression.visit(emitter)?;
-
-                    unimplemented!()
+                    if let Some(annotation) = type_annotation {
+                        annotation.visit(emitter)?;
+                    }
+                    expression.visit(emitter)
                 }
                 NodeLibrarySingleDefinition::TypeDefinition(name, option_clause) => {
                     let result = name.visit(emitter);
-- 
2.43.0


From b4913c1545c506c407ae350abf0535a270b1dc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 20/25] fix: visit the children that tree walks left out

Type annotations of let and fun, type arguments of builtins and constructors,
the name in a blockchain read, and the names of libraries and contracts have
nodes of their own but were never visited.
---
 src/ast/visitor.rs | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/ast/visitor.rs b/src/ast/visitor.rs
index 045ad4e..044f684 100644
--- a/src/ast/visitor.rs
+++ b/src/ast/visitor.rs
@@ -342,14 +342,23 @@ impl AstVisitor for NodeFullExpression {
         let children_ret = if ret == Ok(TraversalResult::Continue) {
             match self {
                 NodeFullExpression::LocalVariableDeclaration {
+                    type_annotation,
                     expression,
                     containing_expression,
                     ..
                 } => {
+                    if let Some(annotation) = type_annotation {
+                        annotation.visit(emitter)?;
+                    }
                     expression.visit(emitter)?;
                     containing_expression.visit(emitter)
                 }
-                NodeFullExpression::FunctionDeclaration { expression, .. } => {
+                NodeFullExpression::FunctionDeclaration {
+                    type_annotation,
+                    expression,
+                    ..
+                } => {
+                    type_annotation.visit(emitter)?;
                     expression.visit(emitter)
                 }
                 NodeFullExpression::FunctionCall {
@@ -364,7 +373,12 @@ impl AstVisitor for NodeFullExpression {
                     Ok(TraversalResult::Continue)
                 }
                 NodeFullExpression::ExpressionAtomic(atom_expr) => atom_expr.visit(emitter),
-                NodeFullExpression::ExpressionBuiltin { xs, .. } => xs.visit(emitter),
+                NodeFullExpression::ExpressionBuiltin { targs, xs, .. } => {
+                    if let Some(targs) = targs {
+                        targs.visit(emitter)?;
+                    }
+                    xs.visit(emitter)
+                }
                 NodeFullExpression::Message(message_entries) => {
                     for entry in message_entries {
                         entry.visit(emitter)?;
@@ -386,10 +400,13 @@ impl AstVisitor for NodeFullExpression {
                 }
                 NodeFullExpression::ConstructorCall {
                     identifier_name,
+                    contract_type_arguments,
                     argument_list,
-                    ..
                 } => {
                     identifier_name.visit(emitter)?;
+                    if let Some(targs) = contract_type_arguments {
+                        targs.visit(emitter)?;
+                    }
                     for arg in argument_list {
                         arg.visit(emitter)?;
                     }
@@ -652,7 +669,12 @@ impl AstVisitor for NodeStatement {
                 NodeStatement::Bind {
                     right_hand_side, ..
                 } => right_hand_side.visit(emitter),
-                NodeStatement::ReadFromBC { arguments, .. } => {
+                NodeStatement::ReadFromBC {
+                    type_name,
+                    arguments,
+                    ..
+                } => {
+                    type_name.visit(emitter)?;
                     if let Some(arg) = arguments {
                         arg.visit(emitter)
                     } else {
@@ -957,6 +979,7 @@ impl AstVisitor for NodeLibraryDefinition {
     fn visit(&self, emitter: &mut dyn AstConverting) -> Result<TraversalResult, String> {
         let ret = emitter.emit_library_definition(TreeTraversalMode::Enter, self);
         let children_ret = if ret == Ok(TraversalResult::Continue) {
+            self.name.visit(emitter)?;
             for definition in &self.definitions {
                 let result = definition.visit(emitter);
 
@@ -1024,6 +1047,7 @@ impl AstVisitor for NodeContractDefinition {
     fn visit(&self, emitter: &mut dyn AstConverting) -> Result<TraversalResult, String> {
         let ret = emitter.emit_contract_definition(TreeTraversalMode::Enter, self);
         let children_ret = if ret == Ok(TraversalResult::Continue) {
+            self.contract_name.visit(emitter)?;
             self.parameters.visit(emitter)?;
 
             if let Some(constraint) = &self.constraint {
-- 
2.43.0


From 2205856f04c49dd56f70adc328baffb8cf607e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:43 +0000
Subject: [PATCH 21/25] fix: a builtin takes either arguments or (), not ()
 followed by arguments

builtin foo () x was accepted although the documented rule is
<variableIdentifier>+ | '(' ')'.
---
 src/parser/parser.lalrpop | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index ad601e9..3ab46f6 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -278,22 +278,9 @@ pub VariableIdentifier : WithMetaData<NodeVariableIdentifier> = {
 // @syntax builtinArguments
 // @return The arguments for a built-in function as either variable identifiers or an empty set of parentheses. 
 pub BuiltinArguments: WithMetaData<NodeBuiltinArguments> = {
-	<start:@L> <prev:BuiltinArguments>
-	<n:VariableIdentifier> <end:@R> => 
-    WithMetaData::<NodeBuiltinArguments> {
-        node: {
-    		let mut ret = NodeBuiltinArguments {
-    			arguments: prev.node.arguments.clone()
-    		};
-    		ret.arguments.push(n);
-    		ret
-    	},
-        start,
-        end
-    },
-	<start:@L> <n:VariableIdentifier> <end:@R> =>     WithMetaData::<NodeBuiltinArguments> {
+	<start:@L> <arguments:VariableIdentifier+> <end:@R> =>     WithMetaData::<NodeBuiltinArguments> {
         node: NodeBuiltinArguments {
-    		arguments: vec![n]
+    		arguments
 	    },
         start,
         end
-- 
2.43.0


From 0df92944b99ecbfbbbd55000bb75a41ceb6af7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:21 +0000
Subject: [PATCH 22/25] fix: visit the stored value of a map update

---
 src/ast/visitor.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ast/visitor.rs b/src/ast/visitor.rs
index 044f684..ebb710b 100644
--- a/src/ast/visitor.rs
+++ b/src/ast/visitor.rs
@@ -681,8 +681,17 @@ impl AstVisitor for NodeStatement {
                         Ok(TraversalResult::Continue)
                     }
                 }
+                NodeStatement::MapUpdate {
+                    keys,
+                    right_hand_side,
+                    ..
+                } => {
+                    for key in keys {
+                        key.visit(emitter)?;
+                    }
+                    right_hand_side.visit(emitter)
+                }
                 NodeStatement::MapGet { keys, .. }
-                | NodeStatement::MapUpdate { keys, .. }
                 | NodeStatement::MapGetExists { keys, .. }
                 | NodeStatement::MapUpdateDelete { keys, .. } => {
                     for key in keys {
-- 
2.43.0


From 4ece1764cda119cf767204bfd910b7cb7746d9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:47 +0000
Subject: [PATCH 23/25] fix: read import declarations in time proportional to
 their number

Every further import copied the whole list read so far: 16000 imports (144 KB)
took more than half a minute.
---
 src/parser/parser.lalrpop | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index 3ab46f6..b4ccf75 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -171,9 +171,7 @@ pub ImportDeclarations: WithMetaData<NodeImportDeclarations> = {
 	"import" <n:ImportedName> <end:@R> => 
         WithMetaData::<NodeImportDeclarations> {
             node: {
-    		let mut ret = NodeImportDeclarations {
-    			import_list: prev.node.import_list.clone()
-    		};
+    		let mut ret = prev.node;
     		ret.import_list.push(n);
     		ret
     	},
-- 
2.43.0


From fa2709e7d7c8731922f3b34d3b25aa4a066feea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:17 +0000
Subject: [PATCH 24/25] fix: reading nested address types no longer copies them
 at every level

---
 src/parser/parser.lalrpop | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index b4ccf75..4dfa61c 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -501,7 +501,7 @@ pub AddressType: WithMetaData<NodeAddressType> = {
 pub AddressTypeFieldList: Vec<WithMetaData<NodeAddressTypeField>> = {
 	<first:AddressTypeField> <remaining:NextAddressTypeField*> =>
 	{
-		let mut ret: Vec<WithMetaData<NodeAddressTypeField>> = [first].to_vec();
+		let mut ret: Vec<WithMetaData<NodeAddressTypeField>> = vec![first];
 		for x in remaining {
 			ret.push(x);
 		}
-- 
2.43.0


From 63248a08151307bb5727c5dd1cde8d168364c8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:00 +0000
Subject: [PATCH 25/25] fix: look for a keyword no further than keywords are
 long

The lexer scanned a run of letters to its end at every token, so a text of
characters no token begins with was read in quadratic time.
---
 src/parser/lexer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index c152a2a..803d5db 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -397,7 +397,9 @@ impl<'input> Iterator for Lexer<'input> {
                         _ => {
                             let token_str: &str = &self.document[start..];
                             let mut index = 0;
-                            for (i, c) in token_str.char_indices() {
+                            // No keyword is longer than this one
+                            let longest = KEYWORD_SCILLA_VERSION.len();
+                            for (i, c) in token_str.char_indices().take(longest + 1) {
                                 if !c.is_alphanumeric() && c != '_' {
                                     index = i;
                                     break;
-- 
2.43.0

