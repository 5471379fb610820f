From 8578ecba6b9a100d77e66c22ba0149c88842ce43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 01/17] fix: ADD UNIQUE/SPATIAL INDEX yields its own index
 type, not FullText

---
 src/alter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/alter.rs b/src/alter.rs
index 5debe01..d39d925 100644
--- a/src/alter.rs
+++ b/src/alter.rs
@@ -526,7 +526,7 @@ fn parse_add_alter_specification<'a>(
                     match &parser.token {
                         Token::Ident(_, kw @ Keyword::INDEX | kw @ Keyword::KEY) => {
                             let kw = *kw;
-                            IndexType::FullText(parser.consume_keyword(kw)?.join_span(&s))
+                            IndexType::Spatial(parser.consume_keyword(kw)?.join_span(&s))
                         }
                         _ => parser.expected_failure("'KEY' or 'INDEX'")?,
                     }
@@ -536,7 +536,7 @@ fn parse_add_alter_specification<'a>(
                     match &parser.token {
                         Token::Ident(_, kw @ Keyword::INDEX | kw @ Keyword::KEY) => {
                             let kw = *kw;
-                            IndexType::FullText(parser.consume_keyword(kw)?.join_span(&s))
+                            IndexType::Unique(parser.consume_keyword(kw)?.join_span(&s))
                         }
                         _ => parser.expected_failure("'KEY' or 'INDEX'")?,
                     }
-- 
2.43.0


From 1c8a2ca2b09a83cd91ee0863b47fcbbfb08f62ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 02/17] fix: foreign key actions SET DEFAULT and NO ACTION
 yield their own variants

---
 src/alter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/alter.rs b/src/alter.rs
index d39d925..b00c77b 100644
--- a/src/alter.rs
+++ b/src/alter.rs
@@ -469,13 +469,13 @@ fn parse_add_alter_specification<'a>(
                             Token::Ident(_, Keyword::NULL) => ForeignKeyOnAction::SetNull(
                                 parser.consume_keyword(Keyword::NULL)?.join_span(&set),
                             ),
-                            Token::Ident(_, Keyword::DELETE) => ForeignKeyOnAction::SetDefault(
+                            Token::Ident(_, Keyword::DEFAULT) => ForeignKeyOnAction::SetDefault(
                                 parser.consume_keyword(Keyword::DEFAULT)?.join_span(&set),
                             ),
                             _ => parser.expected_failure("'NULL' or 'DEFAULT'")?,
                         }
                     }
-                    Token::Ident(_, Keyword::NO) => ForeignKeyOnAction::SetNull(
+                    Token::Ident(_, Keyword::NO) => ForeignKeyOnAction::NoAction(
                         parser.consume_keywords(&[Keyword::NO, Keyword::ACTION])?,
                     ),
                     _ => parser.expected_failure("'RESTRICT' or 'CASCADE', 'SET' or 'NO")?,
-- 
2.43.0


From e3f90000078cdae6da8c7548b2a176109b607f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 03/17] fix: COLLATE on a data type yields Collate, not Charset

---
 src/data_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index 77d4307..46b6eaa 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -420,7 +420,7 @@ pub(crate) fn parse_data_type<'a>(
             }
             Token::Ident(_, Keyword::COLLATE) => {
                 parser.consume_keyword(Keyword::COLLATE)?;
-                properties.push(DataTypeProperty::Charset(
+                properties.push(DataTypeProperty::Collate(
                     parser.consume_plain_identifier()?,
                 ));
             }
-- 
2.43.0


From 8605de2ef187057155f5dd5b3791df4dfa357533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 04/17] fix: names of the shift tokens in messages were swapped

---
 src/lexer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 1793ff7..f921095 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -110,8 +110,8 @@ impl<'a> Token<'a> {
             Token::RParen => "')'",
             Token::SemiColon => "';'",
             Token::Sharp => "'#'",
-            Token::ShiftLeft => "'>>'",
-            Token::ShiftRight => "'<<'",
+            Token::ShiftLeft => "'<<'",
+            Token::ShiftRight => "'>>'",
             Token::DoubleDollar => "'$$'",
             Token::DollarArg(v) if *v == 1 => "'$1'",
             Token::DollarArg(v) if *v == 2 => "'$2'",
-- 
2.43.0


From c8192d2dc8ede5a31219a52d44e09a1bbe023b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:45 +0000
Subject: [PATCH 05/17] fix: restore permit_compound_statements also when a
 trigger body fails to parse

---
 src/create.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/create.rs b/src/create.rs
index 2fe2eb7..f52191d 100644
--- a/src/create.rs
+++ b/src/create.rs
@@ -881,11 +881,12 @@ fn parse_create_trigger<'a>(
     // TODO [{ FOLLOWS | PRECEDES } other_trigger_name ]
 
     let old = core::mem::replace(&mut parser.permit_compound_statements, true);
-    let statement = match parse_statement(parser)? {
+    let statement = parse_statement(parser);
+    parser.permit_compound_statements = old;
+    let statement = match statement? {
         Some(v) => v,
         None => parser.expected_failure("statement")?,
     };
-    parser.permit_compound_statements = old;
 
     Ok(Statement::CreateTrigger(CreateTrigger {
         create_span,
-- 
2.43.0


From 2ed1d44f8b1c5f2b98e4260f74575de74a96bff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:45 +0000
Subject: [PATCH 06/17] fix: DELIMITER at end of input no longer loops forever

---
 src/statement.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/statement.rs b/src/statement.rs
index 2ce3b8a..3df8fb6 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -853,6 +853,10 @@ pub(crate) fn parse_statements<'a>(parser: &mut Parser<'a, '_>) -> Vec<Statement
         if parser.skip_keyword(Keyword::DELIMITER).is_some() {
             let t = parser.token.clone();
 
+            if t == Token::Eof {
+                parser.expected_error("delimiter");
+                continue;
+            }
             if !matches!(t, Token::DoubleDollar | Token::SemiColon) {
                 parser.warn("Unknown delimiter", &parser.span.span());
             }
-- 
2.43.0


From 0fd194237821432db6a7f3fa0a3c8e3ce0fb7991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:02 +0000
Subject: [PATCH 07/17] fix: hex literals yield an invalid token instead of a
 panic

---
 src/lexer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index f921095..028e0e5 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -437,7 +437,10 @@ impl<'a> Lexer<'a> {
                 },
                 'x' | 'X' => match self.chars.peek() {
                     Some((_, '\'')) => {
-                        todo!("Hex literal")
+                        // Hex literals are not supported, consume up to the closing quote
+                        self.chars.next();
+                        while !matches!(self.chars.next(), Some((_, '\'')) | None) {}
+                        Token::Invalid
                     }
                     _ => self.simple_literal(start),
                 },
-- 
2.43.0


From dd2786ec91b823a81194ede7892e15c184d8f8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:02 +0000
Subject: [PATCH 08/17] fix: an argument number out of range is an invalid
 token instead of an overflow

---
 src/lexer.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 028e0e5..d99df59 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -333,14 +333,18 @@ impl<'a> Lexer<'a> {
                         Token::DoubleDollar
                     }
                     Some((_, '1'..='9')) => {
-                        let mut v = self.chars.peek().unwrap().1.to_digit(10).unwrap() as usize;
+                        let mut v =
+                            Some(self.chars.peek().unwrap().1.to_digit(10).unwrap() as usize);
                         self.chars.next();
                         while matches!(self.chars.peek(), Some((_, '0'..='9'))) {
-                            v = v * 10
-                                + self.chars.peek().unwrap().1.to_digit(10).unwrap() as usize;
+                            let d = self.chars.peek().unwrap().1.to_digit(10).unwrap() as usize;
+                            v = v.and_then(|v| v.checked_mul(10)?.checked_add(d));
                             self.chars.next();
                         }
-                        Token::DollarArg(v)
+                        match v {
+                            Some(v) => Token::DollarArg(v),
+                            None => Token::Invalid,
+                        }
                     }
                     _ => Token::Invalid,
                 },
-- 
2.43.0


From 6697c504e25eb46185030185f54cfe5897c95b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:02 +0000
Subject: [PATCH 09/17] fix: warn_unquoted_identifiers yields a warning, not an
 error

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 287a6dc..22faa8d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -248,7 +248,7 @@ impl<'a, 'b> Parser<'a, 'b> {
                 } else if kw != &Keyword::QUOTED_IDENTIFIER
                     && self.options.warn_unquoted_identifiers
                 {
-                    self.err(
+                    self.warn(
                         format!("identifiers should be quoted as `{}`", v),
                         &self.span.span(),
                     );
-- 
2.43.0


From dbd4984d758a27292c22e5520637347cdbc5fc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:16 +0000
Subject: [PATCH 10/17] fix: string decoding drops no characters, and undoubles
 the right quote

---
 src/parser.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 22faa8d..fcdf6b4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -49,6 +49,14 @@ pub(crate) fn decode_single_quoted_string(s: &str) -> Cow<'_, str> {
                     chars.next();
                     r.push('\'');
                 }
+                Some('\\') => match chars.next() {
+                    Some(c @ ('\'' | '"' | '\\')) => r.push(c),
+                    Some(c) => {
+                        r.push('\\');
+                        r.push(c);
+                    }
+                    None => r.push('\\'),
+                },
                 Some(c) => r.push(c),
             }
         }
@@ -65,10 +73,18 @@ pub(crate) fn decode_double_quoted_string(s: &str) -> Cow<'_, str> {
         loop {
             match chars.next() {
                 None => break,
-                Some('\'') => {
+                Some('"') => {
                     chars.next();
-                    r.push('\'');
+                    r.push('"');
                 }
+                Some('\\') => match chars.next() {
+                    Some(c @ ('\'' | '"' | '\\')) => r.push(c),
+                    Some(c) => {
+                        r.push('\\');
+                        r.push(c);
+                    }
+                    None => r.push('\\'),
+                },
                 Some(c) => r.push(c),
             }
         }
-- 
2.43.0


From c7d989f2ec3156c752a78bd49acec0ddc0f0c1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:59 +0000
Subject: [PATCH 11/17] fix: the span of a select includes its locking clause

---
 src/select.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/select.rs b/src/select.rs
index fa4da15..eae7132 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -651,6 +651,7 @@ impl<'a> Spanned for Select<'a> {
             .join_span(&self.window_span)
             .join_span(&self.order_by)
             .join_span(&self.limit)
+            .join_span(&self.locking)
     }
 }
 
-- 
2.43.0


From 91c36fefb722e4b87aa2699c9f91a62de9d18614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:59 +0000
Subject: [PATCH 12/17] fix: the span of a drop table includes CASCADE

---
 src/drop.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/drop.rs b/src/drop.rs
index 7bcd1ca..53c2e7c 100644
--- a/src/drop.rs
+++ b/src/drop.rs
@@ -61,6 +61,7 @@ impl<'a> Spanned for DropTable<'a> {
             .join_span(&self.table_span)
             .join_span(&self.if_exists)
             .join_span(&self.tables)
+            .join_span(&self.cascade)
     }
 }
 
-- 
2.43.0


From fc6175f5e5fc394bc4d8e3496f71e385f6845105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:00 +0000
Subject: [PATCH 13/17] fix: the span of an insert includes its columns

---
 src/insert_replace.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/insert_replace.rs b/src/insert_replace.rs
index 6775bb5..6441516 100644
--- a/src/insert_replace.rs
+++ b/src/insert_replace.rs
@@ -248,6 +248,7 @@ impl<'a> Spanned for InsertReplace<'a> {
             .join_span(&self.flags)
             .join_span(&self.into_span)
             .join_span(&self.table)
+            .join_span(&self.columns)
             .join_span(&self.values)
             .join_span(&self.select)
             .join_span(&self.set)
-- 
2.43.0


From b223019f89cc04e2d80caf4f675daf9bec7e494f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:40 +0000
Subject: [PATCH 14/17] fix: the span of NATURAL LEFT/RIGHT JOIN starts at
 NATURAL

---
 src/select.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index eae7132..756eb89 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -401,7 +401,7 @@ pub(crate) fn parse_table_reference<'a>(
                             .join_span(&parser.consume_keywords(&[Keyword::INNER, Keyword::JOIN])?),
                     ),
                     Token::Ident(_, Keyword::LEFT) => {
-                        let left = parser.consume_keyword(Keyword::LEFT)?;
+                        let left = natural.join_span(&parser.consume_keyword(Keyword::LEFT)?);
                         if let Some(outer) = parser.skip_keyword(Keyword::OUTER) {
                             JoinType::NaturalLeft(
                                 left.join_span(&outer)
@@ -414,7 +414,7 @@ pub(crate) fn parse_table_reference<'a>(
                         }
                     }
                     Token::Ident(_, Keyword::RIGHT) => {
-                        let right = parser.consume_keyword(Keyword::RIGHT)?;
+                        let right = natural.join_span(&parser.consume_keyword(Keyword::RIGHT)?);
                         if let Some(outer) = parser.skip_keyword(Keyword::OUTER) {
                             JoinType::NaturalRight(
                                 right
-- 
2.43.0


From 1d4b16977bdb19fd20996b8a115addb037700207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:14 +0000
Subject: [PATCH 15/17] fix: AND binds tighter than XOR, and XOR tighter than
 OR

---
 src/expression.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expression.rs b/src/expression.rs
index 8475020..aa77ecc 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -951,9 +951,9 @@ trait Priority {
 impl Priority for BinaryOperator {
     fn priority(&self) -> usize {
         match self {
-            BinaryOperator::Or => 140,
+            BinaryOperator::Or => 160,
             BinaryOperator::Xor => 150,
-            BinaryOperator::And => 160,
+            BinaryOperator::And => 140,
             BinaryOperator::Eq => 110,
             BinaryOperator::NullSafeEq => 110,
             BinaryOperator::GtEq => 110,
-- 
2.43.0


From 1b9b78a5956e4d023f137f47eb060e449a750745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:46 +0000
Subject: [PATCH 16/17] fix: an error in the body of a compound statement ends
 at the outer delimiter

With DELIMITER $$ the delimiter is ; within the body of a compound statement, so
recovery after an error there read past $$ and swallowed the statements that follow.
---
 src/parser.rs    | 7 ++++++-
 src/statement.rs | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index fcdf6b4..df653e0 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -32,6 +32,8 @@ pub(crate) struct Parser<'a, 'b> {
     pub(crate) issues: &'b mut Issues<'a>,
     pub(crate) arg: usize,
     pub(crate) delimiter: Token<'a>,
+    /// The delimiter of the outermost statement, `delimiter` differs from it in the body of a compound statement
+    pub(crate) outer_delimiter: Token<'a>,
     pub(crate) options: &'b ParseOptions,
     pub(crate) permit_compound_statements: bool,
 }
@@ -104,6 +106,7 @@ impl<'a, 'b> Parser<'a, 'b> {
             issues,
             arg: 0,
             delimiter: Token::SemiColon,
+            outer_delimiter: Token::SemiColon,
             options,
             permit_compound_statements: false,
         }
@@ -119,7 +122,9 @@ impl<'a, 'b> Parser<'a, 'b> {
             match &self.token {
                 t if brackets.is_empty() && success(t) => return Ok(()),
                 Token::Eof => return Err(ParseError::Unrecovered),
-                t if t == &self.delimiter => return Err(ParseError::Unrecovered),
+                t if t == &self.delimiter || t == &self.outer_delimiter => {
+                    return Err(ParseError::Unrecovered)
+                }
                 t if brackets.is_empty() && fail(t) => return Err(ParseError::Unrecovered),
                 Token::LParen => {
                     brackets.push(Token::LParen);
diff --git a/src/statement.rs b/src/statement.rs
index 3df8fb6..166672c 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -860,7 +860,8 @@ pub(crate) fn parse_statements<'a>(parser: &mut Parser<'a, '_>) -> Vec<Statement
             if !matches!(t, Token::DoubleDollar | Token::SemiColon) {
                 parser.warn("Unknown delimiter", &parser.span.span());
             }
-            parser.delimiter = t;
+            parser.delimiter = t.clone();
+            parser.outer_delimiter = t;
             parser.next();
             continue;
         }
-- 
2.43.0


From a5d8cef845948358dbd53f926f459228956dcf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:26 +0000
Subject: [PATCH 17/17] fix: the functions INSERT and REPEAT could not be
 called

Both are reserved words, so unlike LEFT, which is as well, they were never taken for
the name of a function.
---
 src/expression.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expression.rs b/src/expression.rs
index aa77ecc..f01e571 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -1455,7 +1455,9 @@ pub(crate) fn parse_expression<'a>(
                     r.shift_expr(Expression::Invalid(extract_span))
                 }
             }
-            Token::Ident(_, Keyword::LEFT) if matches!(parser.peek(), Token::LParen) => {
+            Token::Ident(_, Keyword::INSERT | Keyword::LEFT | Keyword::REPEAT)
+                if matches!(parser.peek(), Token::LParen) =>
+            {
                 let i = parser.token.clone();
                 let s = parser.span.clone();
                 parser.consume();
-- 
2.43.0

