From 3f74cb165a18d06d9d5104635334f7ecf6f6e690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:52 +0000
Subject: [PATCH 01/29] fix: report an unclosed bracket instead of recursing
 until the stack overflows

---
 internal/validator/validator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/validator/validator.go b/internal/validator/validator.go
index c3207ab..a7c4e54 100644
--- a/internal/validator/validator.go
+++ b/internal/validator/validator.go
@@ -149,6 +149,9 @@ func (v *validator) validateBrackets(set bool) error {
 
 
 func (v *validator) validateBracketsAux(set bool) error {
+	if v.isOutOfRange() {
+		return v.syntaxError()
+	}
 	if v.matchToken(")") {
 		return nil
 	}
-- 
2.43.0


From 77dbe969e71eacaccc7ae30a29d47b52081185c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:53 +0000
Subject: [PATCH 02/29] fix: ParseForce returns the error when no dialect
 accepts the DDL

---
 ddlparse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ddlparse.go b/ddlparse.go
index 0303e95..a60b928 100644
--- a/ddlparse.go
+++ b/ddlparse.go
@@ -67,7 +67,8 @@ func ParseForce(ddl string) ([]Table, error) {
 	ls := []Rdbms{SQLite, PostgreSQL, MySQL}
 	var err error
 	for _, rdbms := range ls {
-		tables, err := Parse(ddl, rdbms)
+		var tables []Table
+		tables, err = Parse(ddl, rdbms)
 		if err == nil {
 			return tables, nil
 		}
-- 
2.43.0


From 8075dfbbb1aeed505bb94b1c87a862661e8c3689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:53 +0000
Subject: [PATCH 03/29] fix: drop MySQL INDEX, KEY, FULLTEXT and SPATIAL
 definitions completely

---
 internal/validator/validator_mysql.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index e07ef03..0eeb160 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -193,7 +193,7 @@ func (v *mysqlValidator) validateIndexKeys(set bool) error {
 	if err := v.validateIndexKeysAux(set); err != nil {
 		return err
 	}
-	if err := v.validateToken(true, ")"); err != nil {
+	if err := v.validateToken(set, ")"); err != nil {
 		return err
 	}
 	return nil
@@ -752,7 +752,7 @@ func (v *mysqlValidator) validateTableConstraintAux() error {
 	if v.matchTokenNext(false, "FULLTEXT", "SPATIAL") {
 		v.matchTokenNext(false, "INDEX", "KEY")
 		if !v.matchToken("(") {
-			if err := v.validateName(true); err != nil {
+			if err := v.validateName(false); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From 296d76914055ab5467d0e68fbe4df4a59bd2e695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:54 +0000
Subject: [PATCH 04/29] fix: skip the comma after a leading definition that is
 not converted

---
 internal/converter/converter.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index d2e4919..bd875d3 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -187,6 +187,10 @@ func (c *converter) convertTableDefinition() ([]types.Column, types.TableConstra
 	var columns []types.Column
 	var constraints types.TableConstraint
 	for !c.matchToken(")") {
+		if c.matchToken(",") {
+			c.next() // left over from a definition that is not converted
+			continue
+		}
 		if (c.matchToken("CONSTRAINT", "PRIMARY", "UNIQUE", "CHECK", "FOREIGN")) {
 			c.convertTableConstraint(&constraints);
 		} else {
-- 
2.43.0


From 4dceaaa52b77d72336c359e669df171885061f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:54 +0000
Subject: [PATCH 05/29] fix: convert schema-qualified table names after
 REFERENCES

---
 internal/converter/converter.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index bd875d3..6843e35 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -374,6 +374,10 @@ func (c *converter) convertReference() types.Reference {
 	var reference types.Reference
 	c.next() // skip "REFERENCES"
 	reference.TableName = c.convertName()
+	if c.matchToken(".") {
+		c.next() // skip "."
+		reference.TableName += "." + c.convertName()
+	}
 	if c.matchToken("(") {
 		reference.ColumnNames = c.convertCommaSeparatedColumnNames()
 	}
-- 
2.43.0


From 64891b3db99fa8ceb0bb4a243da75a4fd71decfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:55 +0000
Subject: [PATCH 06/29] fix: lex the character after a comment like any other
 (consecutive comments)

---
 internal/lexer/lexer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 067a26a..8a96be6 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -121,14 +121,17 @@ func (l *lexer) lex() error {
 			if err := l.lexHyphen(&token); err != nil {
 				return err
 			}
+			continue
 		} else if c == "/" {
 			if err := l.lexSlash(&token); err != nil {
 				return err
 			}
+			continue
 		} else if c == "*" {
 			if err := l.lexAsterisk(&token); err != nil {
 				return err
 			}
+			continue
 		}
 
 		if l.isOutOfRange() {
-- 
2.43.0


From bac25f41df2c844c43f4e94a8f708ade19681e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:56 +0000
Subject: [PATCH 07/29] fix: examine the character after '*' and '/' in block
 comments

---
 internal/lexer/lexer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 8a96be6..323b8bd 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -355,11 +355,13 @@ func (l *lexer) skipMultiLineComment() error {
 				l.next()
 				return nil
 			}
+			continue
 		} else if c == "/" {
 			l.next()
 			if l.char() == "*" {
 				return l.skipMultiLineComment()
 			}
+			continue
 		}
 		l.next()
 	}
-- 
2.43.0


From 133fe3b95c8539bf4873dcbc1b439e3f2f9b35ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:56 +0000
Subject: [PATCH 08/29] fix: other quote characters inside quoted text are
 plain characters

---
 internal/lexer/lexer.go | 36 ------------------------------------
 1 file changed, 36 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 323b8bd..3e247db 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -381,18 +381,6 @@ func (l *lexer) lexStringDoubleQuote() (string, error) {
 		} else if c == "\"" {
 			l.next()
 			return str + c, nil
-		} else if c == "'" {
-			s, err := l.lexStringSingleQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
-		} else if c == "`" {
-			s, err := l.lexStringBackQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
 		} else {
 			str += c
 		}
@@ -414,18 +402,6 @@ func (l *lexer) lexStringSingleQuote() (string, error) {
 		} else if c == "'" {
 			l.next()
 			return str + c, nil			
-		} else if c == "\"" {
-			s, err := l.lexStringDoubleQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
-		} else if c == "`" {
-			s, err := l.lexStringBackQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
 		} else {
 			str += c
 		}
@@ -447,18 +423,6 @@ func (l *lexer) lexStringBackQuote() (string, error) {
 		} else if c == "`" {
 			l.next()
 			return str + c, nil			
-		} else if c == "\"" {
-			s, err := l.lexStringDoubleQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
-		} else if c == "'" {
-			s, err := l.lexStringSingleQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
 		} else {
 			str += c
 		}
-- 
2.43.0


From f83829150317dcc6cbd10f00e456889c86350ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:57 +0000
Subject: [PATCH 09/29] fix: keep line breaks inside quoted text

---
 internal/lexer/lexer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 3e247db..98076d6 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -378,6 +378,7 @@ func (l *lexer) lexStringDoubleQuote() (string, error) {
 		if c == "\n" {
 			l.line += 1
 			l.appendToken("\n")
+			str += c
 		} else if c == "\"" {
 			l.next()
 			return str + c, nil
@@ -399,6 +400,7 @@ func (l *lexer) lexStringSingleQuote() (string, error) {
 		if c == "\n" {
 			l.line += 1
 			l.appendToken("\n")
+			str += c
 		} else if c == "'" {
 			l.next()
 			return str + c, nil			
@@ -420,6 +422,7 @@ func (l *lexer) lexStringBackQuote() (string, error) {
 		if c == "\n" {
 			l.line += 1
 			l.appendToken("\n")
+			str += c
 		} else if c == "`" {
 			l.next()
 			return str + c, nil			
-- 
2.43.0


From 93d6b0a09ade2b0e463039e521272d14d7772e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:57 +0000
Subject: [PATCH 10/29] fix: count a line break at the very start of the DDL

---
 internal/validator/validator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/validator/validator.go b/internal/validator/validator.go
index a7c4e54..c165af0 100644
--- a/internal/validator/validator.go
+++ b/internal/validator/validator.go
@@ -48,6 +48,7 @@ func (v *validator) init(tokens []string) {
 	v.line = 1
 	v.result = []string{}
 	if v.token() == "\n" {
+		v.line += 1
 		v.next()
 	}
 }
-- 
2.43.0


From 4f08edd4897391108dc879aee2b381b808ce4288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:58 +0000
Subject: [PATCH 11/29] fix: do not swallow the NOT of a NOT NULL that follows
 a MySQL CHECK

---
 internal/validator/validator_mysql.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index 0eeb160..3f1b2e9 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -555,7 +555,15 @@ func (v *mysqlValidator) validateConstraintCheck() error {
 	if err := v.validateExpr(true); err != nil {
 		return err
 	}
-	v.matchTokenNext(false, "NOT")
+	if v.matchToken("NOT") {
+		i, line := v.i, v.line
+		v.next()
+		if v.matchToken("NULL") {
+			v.i, v.line = i, line // NOT NULL is a constraint of its own
+			return nil
+		}
+		return v.validateToken(false, "ENFORCED")
+	}
 	v.matchTokenNext(false, "ENFORCED")
 	return nil
 }
-- 
2.43.0


From 6731a34be72ddf26fe4217c208f4b97096c2ef93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:58 +0000
Subject: [PATCH 12/29] fix: accept NOT NULL after a SQLite REFERENCES clause

---
 internal/validator/validator_sqlite.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/validator/validator_sqlite.go b/internal/validator/validator_sqlite.go
index 0ba0103..425c723 100644
--- a/internal/validator/validator_sqlite.go
+++ b/internal/validator/validator_sqlite.go
@@ -449,7 +449,12 @@ func (v *sqliteValidator) validateConstraintReferencesAux() error {
 	}
 
 	if v.matchToken("NOT", "DEFERRABLE") {
+		i, line := v.i, v.line
 		v.matchTokenNext(false, "NOT")
+		if v.matchToken("NULL") {
+			v.i, v.line = i, line // NOT NULL is a constraint of its own
+			return nil
+		}
 		if err := v.validateToken(false, "DEFERRABLE"); err != nil {
 			return err
 		}
-- 
2.43.0


From e61251f260339a55a333cc34de51c91e020a0d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:59 +0000
Subject: [PATCH 13/29] fix: the index name of a MySQL UNIQUE constraint is
 optional before USING

---
 internal/validator/validator_mysql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index 3f1b2e9..ce4763c 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -804,7 +804,7 @@ func (v *mysqlValidator) validateTableConstraintUnique() error {
 		return err
 	}
 	v.matchTokenNext(false, "INDEX", "KEY")
-	if !v.matchToken("(") {
+	if !v.matchToken("(") && !v.matchToken("USING") {
 		if err := v.validateName(false); err != nil {
 			return err
 		}
-- 
2.43.0


From e200696d7194f50398013748f9fbd1d91edd0f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:02 +0000
Subject: [PATCH 14/29] fix: lex decimal literals as one token

---
 internal/lexer/lexer.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 98076d6..8f8fdad 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -1,6 +1,8 @@
 package lexer
 
 import (
+	"strings"
+
 	"github.com/kodaimura/ddlparse/internal/common"
 )
 
@@ -160,6 +162,10 @@ func (l *lexer) lex() error {
 		} else if c == "\n" {
 			l.lexEOL(&token)
 
+		} else if c == "." && l.isDecimalPoint(token) {
+			token += c
+			l.next()
+
 		} else if c == "(" || c == ")" || c == "," || c == "." || c == ";" {
 			l.lexSymbol(&token)
 
@@ -176,6 +182,17 @@ func (l *lexer) lex() error {
 }
 
 
+// isDecimalPoint reports whether the current "." continues a number: 
+// the token so far is an integer and a digit follows.
+func (l *lexer) isDecimalPoint(token string) bool {
+	digits := strings.TrimLeft(token, "+-")
+	if digits == "" || strings.Trim(digits, "0123456789") != "" {
+		return false
+	}
+	return l.i + 1 < l.size && l.ddlr[l.i + 1] >= '0' && l.ddlr[l.i + 1] <= '9'
+}
+
+
 func (l *lexer) lexHyphen(token *string) error {
 	c := l.char()
 	if c == "-" {
-- 
2.43.0


From c36223f8c77009ff2d1cd6724c395d497848a2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:03 +0000
Subject: [PATCH 15/29] fix: NaN, Inf and Infinity are not numeric literals

---
 internal/common/utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/common/utils.go b/internal/common/utils.go
index d823881..ef788bd 100644
--- a/internal/common/utils.go
+++ b/internal/common/utils.go
@@ -2,6 +2,7 @@ package common
 
 import (
 	"strconv"
+	"strings"
 )
 
 func Filter(slice []string, f func(string) bool) []string {
@@ -52,6 +53,9 @@ func IsPositiveIntegerToken(token string) bool {
 }
 
 func IsNumericToken(token string) bool {
+	if strings.ContainsAny(token, "nN") {
+		return false // NaN, Inf and Infinity are words
+	}
 	_, err := strconv.ParseFloat(token, 64)
 	return err == nil
 }
\ No newline at end of file
-- 
2.43.0


From 7b1550a9cccb37f3a33d0901ca7820348560ec01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:04 +0000
Subject: [PATCH 16/29] fix: the last semicolon of a SQLite DDL is optional

---
 internal/validator/validator_sqlite.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/validator/validator_sqlite.go b/internal/validator/validator_sqlite.go
index 425c723..352e5cb 100644
--- a/internal/validator/validator_sqlite.go
+++ b/internal/validator/validator_sqlite.go
@@ -137,6 +137,9 @@ func (v *sqliteValidator) validateCreateTable() error {
 	if err := v.validateTableDefinition(); err != nil {
 		return err
 	}
+	if v.isOutOfRange() {
+		return nil // the last ";" is optional
+	}
 	if err := v.validateToken(true, ";"); err != nil {
 		return err
 	}
-- 
2.43.0


From eeac2f30de2dca03d98e05a256bba5584bfa0e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:04 +0000
Subject: [PATCH 17/29] fix: treat carriage returns as white space

---
 internal/lexer/lexer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 8f8fdad..fc394b6 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -159,6 +159,11 @@ func (l *lexer) lex() error {
 		} else if c == " " || c == "\t"{
 			l.lexSpace(&token)
 
+		} else if c == "\r" {
+			l.appendToken(token)
+			token = ""
+			l.next()
+
 		} else if c == "\n" {
 			l.lexEOL(&token)
 
-- 
2.43.0


From a2cd424990521c84767d6ddf67779b4ff04ea4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:05 +0000
Subject: [PATCH 18/29] fix: MySQL reserved word INFILE

---
 internal/validator/validator_mysql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index ce4763c..7e3f95c 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -1323,7 +1323,7 @@ var ReservedWords_MySQL = []string{
 	"IGNORE",
 	"IN",
 	"INDEX",
-	"INFILEx",
+	"INFILE",
 	"INNER",
 	"INOUT",
 	"INSENSITIVE",
-- 
2.43.0


From 9a417782870b9f6487a5a30b58bd22d4720834d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:05 +0000
Subject: [PATCH 19/29] fix: keep constraint names that are another dialect's
 auto-increment keyword

---
 internal/converter/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index 6843e35..d6ac2b5 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -258,7 +258,7 @@ func (c *converter) convertConstraint() types.Constraint {
 	var constraint types.Constraint
 	if c.matchToken("CONSTRAINT") {
 		c.next() // skip "CONSTRAINT"
-		if (!c.matchToken("PRIMARY", "UNIQUE", "NOT", "AUTOINCREMENT", "AUTO_INCREMENT", "DEFAULT", "CHECK", "REFERENCES", "COLLATE")) {
+		if (!c.matchToken("PRIMARY", "UNIQUE", "NOT", "DEFAULT", "CHECK", "REFERENCES", "COLLATE")) {
 			constraint.Name = c.convertName()
 		}
 	}
-- 
2.43.0


From f05e6ea524a861326188ffc9d60520c8c83baecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:06 +0000
Subject: [PATCH 20/29] fix: keep the words of an expression apart

---
 internal/converter/converter.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index d6ac2b5..c2830b1 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -344,7 +344,16 @@ func (c *converter) convertExprAux() string {
 	if c.matchToken("(") {
 		return c.convertExpr() + c.convertExprAux()
 	}
-	return c.next() + c.convertExprAux()
+	token := c.next()
+	if !c.isSymbol(token) && !c.isSymbol(c.token()) {
+		token += " "
+	}
+	return token + c.convertExprAux()
+}
+
+
+func (c *converter) isSymbol(token string) bool {
+	return common.Contains([]string{"(", ")", ",", ".", ";"}, token)
 }
 
 
-- 
2.43.0


From 9c3adcf8a5ec0a1e614b6e97cbb0dd053062c94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:49 +0000
Subject: [PATCH 21/29] fix: accept any name after MATCH in SQLite

---
 internal/validator/validator_sqlite.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/validator/validator_sqlite.go b/internal/validator/validator_sqlite.go
index 352e5cb..4fdf139 100644
--- a/internal/validator/validator_sqlite.go
+++ b/internal/validator/validator_sqlite.go
@@ -445,7 +445,9 @@ func (v *sqliteValidator) validateConstraintReferencesAux() error {
 	}
 
 	if v.matchTokenNext(false, "MATCH") {
-		if err := v.validateToken(false, "SIMPLE", "PARTIAL", "FULL"); err != nil {
+		if v.matchTokenNext(false, "SIMPLE", "PARTIAL", "FULL") {
+
+		} else if err := v.validateName(false); err != nil {
 			return err
 		}
 		return v.validateConstraintReferencesAux()
-- 
2.43.0


From 481c2d48cdf3671a43a8c3eb98b5271a0f796aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:50 +0000
Subject: [PATCH 22/29] fix: accept CONSTRAINT name before any column
 constraint, not only the first

---
 internal/validator/validator_mysql.go      | 10 ++++++++++
 internal/validator/validator_postgresql.go |  8 ++++++++
 internal/validator/validator_sqlite.go     |  8 ++++++++
 3 files changed, 26 insertions(+)

diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index 7e3f95c..085a2ae 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -419,6 +419,16 @@ func (v *mysqlValidator) isColumnConstraint(token string) bool {
 
 
 func (v *mysqlValidator) validateColumnConstraintsAux(ls []string) error {
+	if len(ls) > 0 && v.matchTokenNext(false, "CONSTRAINT") {
+		if !v.matchToken("CHECK") {
+			if err := v.validateName(false); err != nil {
+				return err
+			}
+		}
+		if !v.matchToken("CHECK") {
+			return v.syntaxError()
+		}
+	}
 	if !v.isColumnConstraint(v.token()) {
 		return nil
 	} 
diff --git a/internal/validator/validator_postgresql.go b/internal/validator/validator_postgresql.go
index 0461cd3..3bea93a 100644
--- a/internal/validator/validator_postgresql.go
+++ b/internal/validator/validator_postgresql.go
@@ -361,6 +361,14 @@ func (v *postgresqlValidator) isColumnConstraint(token string) bool {
 
 
 func (v *postgresqlValidator) validateColumnConstraintsAux(ls []string) error {
+	if len(ls) > 0 && v.matchTokenNext(false, "CONSTRAINT") {
+		if err := v.validateName(false); err != nil {
+			return err
+		}
+		if !v.isColumnConstraint(v.token()) {
+			return v.syntaxError()
+		}
+	}
 	if !v.isColumnConstraint(v.token()) {
 		return nil
 	} 
diff --git a/internal/validator/validator_sqlite.go b/internal/validator/validator_sqlite.go
index 4fdf139..c3e542f 100644
--- a/internal/validator/validator_sqlite.go
+++ b/internal/validator/validator_sqlite.go
@@ -253,6 +253,14 @@ func (v *sqliteValidator) validateColumnConstraints() error {
 
 
 func (v *sqliteValidator) validateColumnConstraintsAux(ls []string) error {
+	if len(ls) > 0 && v.matchTokenNext(false, "CONSTRAINT") {
+		if err := v.validateName(false); err != nil {
+			return err
+		}
+		if !v.isColumnConstraint(v.token()) {
+			return v.syntaxError()
+		}
+	}
 	if !v.isColumnConstraint(v.token()) {
 		return nil
 	} 
-- 
2.43.0


From c98baf161220134ee563a6c1f3d4ba434004b798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:50 +0000
Subject: [PATCH 23/29] fix: a CASE expression or inner block does not end the
 BEGIN ... END body of a CREATE statement

---
 internal/validator/validator_mysql.go      | 14 +++++++++++---
 internal/validator/validator_postgresql.go |  7 +++++--
 internal/validator/validator_sqlite.go     |  7 +++++--
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index 085a2ae..f0765d0 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -266,16 +266,24 @@ func (v *mysqlValidator) validateCreateOther() error {
 		return err
 	}
 	begin := false
+	depth := 0 // of BEGIN ... END and CASE ... END
 	for true {
 		if v.isOutOfRange() {
 			return v.syntaxError()
 		}
-		if v.matchToken("BEGIN") {
+		if v.matchToken("BEGIN") || (begin && v.matchToken("CASE")) {
 			begin = true
+			depth += 1
 		}
 		if begin {
-			if v.matchToken("END") {
-				begin = false
+			if v.matchTokenNext(false, "END") {
+				if v.matchTokenNext(false, "IF", "LOOP", "WHILE", "REPEAT") {
+					continue // END IF, END LOOP, ... do not end a block
+				}
+				v.matchTokenNext(false, "CASE")
+				depth -= 1
+				begin = depth > 0
+				continue
 			}
 		} else {
 			if v.matchToken(";") {
diff --git a/internal/validator/validator_postgresql.go b/internal/validator/validator_postgresql.go
index 3bea93a..9ff27b9 100644
--- a/internal/validator/validator_postgresql.go
+++ b/internal/validator/validator_postgresql.go
@@ -157,16 +157,19 @@ func (v *postgresqlValidator) validateCreateOther() error {
 		return err
 	}
 	begin := false
+	depth := 0 // of BEGIN ... END and CASE ... END
 	for true {
 		if v.isOutOfRange() {
 			return v.syntaxError()
 		}
-		if v.matchToken("BEGIN") {
+		if v.matchToken("BEGIN") || (begin && v.matchToken("CASE")) {
 			begin = true
+			depth += 1
 		}
 		if begin {
 			if v.matchToken("END") {
-				begin = false
+				depth -= 1
+				begin = depth > 0
 			}
 		} else {
 			if v.matchToken(";") {
diff --git a/internal/validator/validator_sqlite.go b/internal/validator/validator_sqlite.go
index c3e542f..5fbee2b 100644
--- a/internal/validator/validator_sqlite.go
+++ b/internal/validator/validator_sqlite.go
@@ -152,16 +152,19 @@ func (v *sqliteValidator) validateCreateOther() error {
 		return err
 	}
 	begin := false
+	depth := 0 // of BEGIN ... END and CASE ... END
 	for true {
 		if v.isOutOfRange() {
 			return v.syntaxError()
 		}
-		if v.matchToken("BEGIN") {
+		if v.matchToken("BEGIN") || (begin && v.matchToken("CASE")) {
 			begin = true
+			depth += 1
 		}
 		if begin {
 			if v.matchToken("END") {
-				begin = false
+				depth -= 1
+				begin = depth > 0
 			}
 		} else {
 			if v.matchToken(";") {
-- 
2.43.0


From bb4c9b400d9fc61a436ca11ccbe6b183e35dcc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:51 +0000
Subject: [PATCH 24/29] fix: accept the documented AS (expr) column constraint
 in PostgreSQL

---
 internal/validator/validator_postgresql.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/validator/validator_postgresql.go b/internal/validator/validator_postgresql.go
index 9ff27b9..6e188a2 100644
--- a/internal/validator/validator_postgresql.go
+++ b/internal/validator/validator_postgresql.go
@@ -572,6 +572,13 @@ func (v *postgresqlValidator) validateConstraintReferencesAux() error {
 
 
 func (v *postgresqlValidator) validateConstraintGenerated() error {
+	if v.matchTokenNext(false, "AS") {
+		if err := v.validateBrackets(false); err != nil {
+			return err
+		}
+		v.matchTokenNext(false, "STORED", "VIRTUAL")
+		return nil
+	}
 	if err := v.validateToken(false, "GENERATED"); err != nil {
 		return err
 	}
-- 
2.43.0


From 0279c02f711424899ff34d967dfcbae48263a45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:52 +0000
Subject: [PATCH 25/29] fix: match keywords in any mixture of upper and lower
 case

---
 internal/converter/converter.go | 3 +++
 internal/validator/validator.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index c2830b1..05ebb34 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -80,6 +80,9 @@ func (c *converter) next() string {
 
 
 func (c *converter) matchToken(keywords ...string) bool {
+	if common.Contains(common.MapSlice(keywords, strings.ToUpper), strings.ToUpper(c.token())) {
+		return true
+	}
 	return common.Contains(
 		append(
 			common.MapSlice(keywords, strings.ToLower), 
diff --git a/internal/validator/validator.go b/internal/validator/validator.go
index c165af0..7a9076b 100644
--- a/internal/validator/validator.go
+++ b/internal/validator/validator.go
@@ -98,6 +98,9 @@ func (v *validator) syntaxError() error {
 
 
 func (v *validator) matchToken(keywords ...string) bool {
+	if common.Contains(common.MapSlice(keywords, strings.ToUpper), strings.ToUpper(v.token())) {
+		return true
+	}
 	return common.Contains(
 		append(
 			common.MapSlice(keywords, strings.ToLower), 
-- 
2.43.0


From 4c1c4ad5cbbcb60f4cd494d4f87e42c80081215e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:52 +0000
Subject: [PATCH 26/29] fix: GENERATED ALWAYS AS and AS are one kind of column
 constraint

---
 internal/validator/validator_postgresql.go | 5 +++++
 internal/validator/validator_sqlite.go     | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/internal/validator/validator_postgresql.go b/internal/validator/validator_postgresql.go
index 6e188a2..e3f17a4 100644
--- a/internal/validator/validator_postgresql.go
+++ b/internal/validator/validator_postgresql.go
@@ -375,6 +375,11 @@ func (v *postgresqlValidator) validateColumnConstraintsAux(ls []string) error {
 	if !v.isColumnConstraint(v.token()) {
 		return nil
 	} 
+	if v.matchToken("GENERATED", "AS") {
+		if common.Contains(ls, "GENERATED") || common.Contains(ls, "AS") {
+			return v.syntaxError()
+		}
+	}
 	if v.matchToken("NOT") {
 		if common.Contains(ls, "NULL") {
 			return v.syntaxError()
diff --git a/internal/validator/validator_sqlite.go b/internal/validator/validator_sqlite.go
index 5fbee2b..d29197f 100644
--- a/internal/validator/validator_sqlite.go
+++ b/internal/validator/validator_sqlite.go
@@ -267,6 +267,11 @@ func (v *sqliteValidator) validateColumnConstraintsAux(ls []string) error {
 	if !v.isColumnConstraint(v.token()) {
 		return nil
 	} 
+	if v.matchToken("GENERATED", "AS") {
+		if common.Contains(ls, "GENERATED") || common.Contains(ls, "AS") {
+			return v.syntaxError()
+		}
+	}
 	if common.Contains(ls, strings.ToUpper(v.token())) {
 		return v.syntaxError()
 	} 
-- 
2.43.0


From 973e2ef582ecf188e2622c84cdb080e021eec968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:53 +0000
Subject: [PATCH 27/29] fix: accept a scale of 0

---
 internal/validator/validator_mysql.go      | 2 +-
 internal/validator/validator_postgresql.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index f0765d0..94f92ae 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -129,7 +129,7 @@ func (v *mysqlValidator) validateTypeDigitPS(set bool) error {
 		if err := v.validatePositiveInteger(set); err != nil {
 			return err
 		}
-		if v.matchTokenNext(set, ",") {
+		if v.matchTokenNext(set, ",") && !v.matchTokenNext(set, "0") {
 			if err := v.validatePositiveInteger(set); err != nil {
 				return err
 			}
diff --git a/internal/validator/validator_postgresql.go b/internal/validator/validator_postgresql.go
index e3f17a4..2870038 100644
--- a/internal/validator/validator_postgresql.go
+++ b/internal/validator/validator_postgresql.go
@@ -323,7 +323,7 @@ func (v *postgresqlValidator) validateTypeDigitPS() error {
 		if err := v.validatePositiveInteger(); err != nil {
 			return err
 		}
-		if v.matchTokenNext(true, ",") {
+		if v.matchTokenNext(true, ",") && !v.matchTokenNext(true, "0") {
 			if err := v.validatePositiveInteger(); err != nil {
 				return err
 			}
-- 
2.43.0


From a109dd9742f57f8b825ee98f3e53fd3325174c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:09 +0000
Subject: [PATCH 28/29] fix: accept a time precision of 0

---
 internal/validator/validator_mysql.go      | 8 ++++++++
 internal/validator/validator_postgresql.go | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index 94f92ae..e949104 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -119,6 +119,14 @@ func (v *mysqlValidator) validateTypeDigitN(set bool) error {
 
 // (presision)
 func (v *mysqlValidator) validateTypeDigitP(set bool) error {
+	if v.matchTokenNext(set, "(") {
+		if v.matchTokenNext(set, "0") {
+
+		} else if err := v.validatePositiveInteger(set); err != nil {
+			return err
+		}
+		return v.validateToken(set, ")")
+	}
 	return v.validateTypeDigitN(set)
 }
 
diff --git a/internal/validator/validator_postgresql.go b/internal/validator/validator_postgresql.go
index 2870038..739c2de 100644
--- a/internal/validator/validator_postgresql.go
+++ b/internal/validator/validator_postgresql.go
@@ -314,6 +314,14 @@ func (v *postgresqlValidator) validateTypeDigitN() error {
 
 // (presision)
 func (v *postgresqlValidator) validateTypeDigitP() error {
+	if v.matchTokenNext(true, "(") {
+		if v.matchTokenNext(true, "0") {
+
+		} else if err := v.validatePositiveInteger(); err != nil {
+			return err
+		}
+		return v.validateToken(true, ")")
+	}
 	return v.validateTypeDigitN()
 }
 
-- 
2.43.0


From 490751b298294e1666f4f757a4bf41554943a66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:57 +0000
Subject: [PATCH 29/29] fix: MySQL options may be written without blanks around
 "="

---
 internal/lexer/lexer.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index fc394b6..d0799f3 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -52,6 +52,7 @@ type lexer struct {
 	size int
 	i int
 	line int
+	depth int
 	result []string
 }
 
@@ -75,6 +76,7 @@ func (l *lexer) init(ddl string) {
 	l.size = len(l.ddlr)
 	l.i = 0
 	l.line = 1
+	l.depth = 0
 	l.result = []string{}
 }
 
@@ -167,6 +169,12 @@ func (l *lexer) lex() error {
 		} else if c == "\n" {
 			l.lexEOL(&token)
 
+		} else if c == "=" && l.isOptionAssignment() {
+			l.appendToken(token)
+			l.appendToken(c)
+			token = ""
+			l.next()
+
 		} else if c == "." && l.isDecimalPoint(token) {
 			token += c
 			l.next()
@@ -187,6 +195,13 @@ func (l *lexer) lex() error {
 }
 
 
+// isOptionAssignment reports whether the current "=" belongs to an option such as 
+// ENGINE=InnoDB. Expressions are nested at least two brackets deep.
+func (l *lexer) isOptionAssignment() bool {
+	return l.rdbms == common.MySQL && l.depth < 2
+}
+
+
 // isDecimalPoint reports whether the current "." continues a number: 
 // the token so far is an integer and a digit follows.
 func (l *lexer) isDecimalPoint(token string) bool {
@@ -343,6 +358,11 @@ func (l *lexer) lexSymbol(token *string) {
 		l.appendToken(c)
 		*token = ""
 	}
+	if c == "(" {
+		l.depth += 1
+	} else if c == ")" {
+		l.depth -= 1
+	}
 	l.next()
 	return
 }
-- 
2.43.0

